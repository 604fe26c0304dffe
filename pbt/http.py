"""Generator of HTTP/1.x messages and the reference model of what a parser must report for them."""
from .engine import blob
METHODS = [b'GET', b'POST', b'HEAD', b'PUT', b'DELETE', b'OPTIONS', b'CONNECT', b'TRACE', b'COPY', b'LOCK', b'MKCOL', b'MOVE', b'PROPFIND', b'PROPPATCH', b'UNLOCK',
           b'REPORT', b'MKACTIVITY', b'CHECKOUT', b'MERGE', b'M-SEARCH', b'NOTIFY', b'SUBSCRIBE', b'UNSUBSCRIBE', b'PATCH']
TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~"
URLC = 'abcXYZ019-._~/%!$&\'()*+,;=:@[]|"<>{}\\^`'
NEAR = [b'Host', b'Accept', b'X-A', b'Content-Lengt', b'Content-Lengths', b'X-Content-Length', b'Connectio', b'Connections', b'Transfer-Encodin', b'Transfer-Encodings', b'Content-Type', b'Cont', b'Conn', b'C', b'Co',
        b'T', b'P', b'Proxy', b'Proxy-Connectio', b'Upgrad', b'Upgrades', b'U', b'Content-Length-Limit', b'Cookie', b'Te', b'TransferEncoding']

def case_mix(d, name):
    k = d.int(0, 3)
    if k == 0: return name
    if k == 1: return name.lower()
    if k == 2: return name.upper()
    return bytes(ord(chr(c).swapcase()) if d.bool() else c for c in name)

def value(d, lo=0):
    k = d.weighted([(6, 's'), (1, 'l'), (1, 'b'), (1, 'near')])
    if k == 's': v = d.btext('abcdefghij XYZ019,;=/.-"\t:', 24, lo)
    elif k == 'l': v = d.btext('abc ;=', 9000, lo)
    elif k == 'near': v = d.choice([b'chunked', b'keep-alive', b'close', b'identity', b'7', b'Chunked, gzip', b'HTTP/1.1', b'0'])
    else: v = bytes(c for c in (d.int(32, 255) for _ in range(d.int(1, 20))) if c != 127)
    return v.lstrip(b' \t') or (b'v' if lo else b'')

def target(d, method):
    if method == b'CONNECT': return d.choice([b'example.com:443', b'127.0.0.1:80', b'h', b'a-b_c.d:1'])
    k = d.weighted([(10, 'path'), (1, 'abs'), (1, 'star')])
    if k == 'star': return b'*'
    p = b'/' + (d.btext(URLC, 3000) if d.bool(0.9) else bytes(d.int(128, 255) for _ in range(d.int(1, 9))))
    if d.bool(0.35): p += b'?' + d.btext(URLC + '?', 60)
    if d.bool(0.1): p += b'#' + d.btext(URLC + '?#', 20)
    if k == 'abs': return d.choice([b'http', b'https', b'x']) + b'://' + d.choice([b'localhost', b'10.0.0.1', b'a.b-c']) + d.choice([b'', b':80', b':8080']) + d.choice([b'', p])
    return p

def message(d, request=True, body_max=20000, connection=None, last=False):
    """-> dict describing a well formed message; the last response may have a body that ends with the connection"""
    m = {'request': request}
    m['version'] = d.weighted([(6, b'1.1'), (2, b'1.0'), (1, b'1.12'), (1, b'2.0')])
    headers = []
    for _ in range(d.size(40, small=4)):
        n = case_mix(d, d.choice(NEAR)) if d.bool(0.6) else d.btext(TOKEN, 40, 1)
        if n.lower() in (b'content-length', b'transfer-encoding', b'connection', b'proxy-connection', b'upgrade'): n = b'x'
        headers.append([n, d.choice([b' ', b'', b'  ', b' \t']), value(d)])
    fr = d.weighted([(3, 'none'), (3, 'length'), (3, 'chunked'), (1, 'zero')] if request else [(3, 'length'), (3, 'chunked'), (1, 'zero')])
    if request:
        m['method'] = d.choice(METHODS) if d.bool(0.7) else b'GET'
        if m['method'] == b'CONNECT': fr = 'none'
        m['target'] = target(d, m['method'])
    else:
        m['status'] = d.choice([b'200', b'404', b'206', b'500', b'302', b'999', b'201', b'204', b'304'])
        if m['status'] in (b'204', b'304'): fr = 'none'
        elif last and d.bool(0.25): fr = 'eof'
        m['reason'] = d.choice([b' OK', b' Not Found', b'', b' ', b' a b c'])
    special = []
    if fr in ('length', 'zero'):
        n = 0 if fr == 'zero' else d.size(body_max, 1, 30)
        m['body'] = [d.int(0, 2 ** 16), n]
        special.append([case_mix(d, b'Content-Length'), d.choice([b' ', b'', b'   ']), d.choice([b'', b'', b'0', b'000']) + b'%d' % n + d.choice([b'', b'', b' '])])
    elif fr == 'chunked':
        chunks = []
        for _ in range(d.size(12, small=4)):
            n = d.size(max(body_max // 4, 1), 1, 20)
            chunks.append([d.int(0, 2 ** 16), n, d.choice(['%x', '%X', '0%x', '%04x']), d.choice([b'', b'', b'', b';a=b', b' ', b';x="y;z"', b';'])])
        m['chunks'] = chunks; m['last'] = d.choice([b'0', b'0', b'000', b'0;a=b', b'0 '])
        m['trailers'] = [[d.btext(TOKEN, 12, 1), b' ', value(d)] for _ in range(d.size(4, small=1))] if d.bool(0.3) else []
        special.append([case_mix(d, b'Transfer-Encoding'), d.choice([b' ', b'']), case_mix(d, b'chunked') + d.choice([b'', b'', b' '])])
    elif fr == 'eof': m['body'] = [d.int(0, 2 ** 16), d.size(body_max, 1, 30)]
    elif request and d.bool(0.1): special.append([case_mix(d, b'Upgrade'), b' ', value(d, 1)])
    if fr != 'chunked' and d.bool(0.1): special.append([case_mix(d, b'Transfer-Encoding'), b' ', d.choice([b'identity', b'gzip', b'c', b'chunkedx', b'chunke', b'xchunked'])])
    if connection is None:
        for _ in range(d.weighted([(5, 1), (2, 0), (1, 2)])):
            special.append([case_mix(d, d.choice([b'Connection', b'Connection', b'Proxy-Connection'])), d.choice([b' ', b'']),
                            case_mix(d, d.weighted([(4, b'keep-alive'), (3, b'close'), (1, b'keep-aliv'), (1, b'keep-alives'), (1, b'clos'), (1, b'closed'), (1, b'k'), (1, b'c'), (1, b'x-keep-alive'), (1, b'upgrade')])) + d.choice([b'', b'', b' '])])
    else: special.append(connection)
    for s in special: headers.insert(d.int(0, len(headers)), s)
    m['headers'] = headers; m['framing'] = fr
    return m

def body_of(m):
    if m['framing'] in ('length', 'eof'): return blob(*m['body'])
    if m['framing'] == 'chunked': return b''.join(blob(c[0], c[1]) for c in m['chunks'])
    return b''

def head_line(m):
    if m['request']: return m['method'] + b' ' + m['target'] + b' HTTP/' + m['version'] + b'\r\n'
    return b'HTTP/' + m['version'] + b' ' + m['status'] + m['reason'] + b'\r\n'

def lines(hs): return b''.join(n + b':' + s + v + b'\r\n' for n, s, v in hs)

def wire_parts(m):
    """-> list of (kind, bytes)"""
    out = [('line', head_line(m)), ('headers', lines(m['headers'])), ('end', b'\r\n')]
    if m['framing'] in ('length', 'eof'): out.append(('body', blob(*m['body'])))
    elif m['framing'] == 'chunked':
        for s, n, f, ext in m['chunks']:
            out.append(('size', (f % n).encode() + ext + b'\r\n')); out.append(('data', blob(s, n) + b'\r\n'))
        out.append(('size', m['last'] + b'\r\n')); out.append(('trailers', lines(m['trailers']) + b'\r\n'))
    return out

def wire(m): return b''.join(p for _, p in wire_parts(m))

def flags_of(m):
    ka = cl = 0
    for n, s, v in m['headers'] + m.get('trailers', []):
        if n.lower() in (b'connection', b'proxy-connection'):
            w = v.lower().rstrip(b' ')
            if w == b'keep-alive': ka = 1
            if w == b'close': cl = 1
    return ka, cl

def hx(b): return 'x' + b.hex()

def events(m):
    """the observations a parser makes for the message"""
    out = ['BEGIN']
    if m['request']: out.append('URL ' + hx(m['target']))
    out.append('LINE')
    for n, s, v in m['headers']: out += ['F ' + hx(n), 'V ' + hx(v)]
    maj, mnr = (int(x) for x in m['version'].split(b'.'))
    out.append('HEAD %s %d.%d' % ((m['method'] if m['request'] else m['status']).decode(), maj, mnr))
    b = body_of(m)
    if b: out.append('BODY ' + hx(b))
    for n, s, v in m.get('trailers', []): out += ['F ' + hx(n), 'V ' + hx(v)]
    out.append('DONE %d %d' % flags_of(m))
    return out

def cuts(d, n):
    """how n bytes are divided into reads: list of lengths"""
    k = d.weighted([(2, 'one'), (3, 'few'), (2, 'small'), (2, 'single'), (1, 'same')])
    if k == 'one': return [1] * n if n <= 4000 else [1] * 200 + [n // 2]
    if k == 'few':
        p = sorted(set(d.int(0, n) for _ in range(d.int(1, 6)))); out = []; last = 0
        for x in p:
            if x > last: out.append(x - last); last = x
        return out
    if k == 'single': return [d.int(1, max(1, n - 1))]
    if k == 'same':
        s = d.choice([2, 3, 5, 7, 16, 64, 1000]); return [s] * min(n // s + 1, 3000)
    out = []; t = 0
    while t < n and len(out) < 400:
        x = d.int(1, 9); out.append(x); t += x
    return out
