"""Shared pieces of the checks that talk to the server: file names, spellings of targets, file trees."""
import json, os, shutil
from .server import Server
from .engine import blob
MIME = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', 'mime.json')))
SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*,;=:@")

def server(env, key='srv', **kw):
    if key not in env.cache: env.cache[key] = Server(env, name=key, **kw)
    return env.cache[key].fresh()

def name(d, bad=b'', long=True):
    """the name of a file: bytes without / and NUL, not . or .."""
    k = d.weighted([(6, 's'), (2, 'odd'), (1, 'high'), (1, 'long') if long else (1, 's')])
    if k == 's': n = d.btext('abcxyzABC019-_ .', 12, 1)
    elif k == 'odd': n = d.btext('a.+%& #?=;:@!$\'()*,~[]{}|\\^`"<>\t\n\x01\x7f\r', 10, 1)
    elif k == 'high': n = bytes(d.int(128, 255) for _ in range(d.int(1, 9)))
    else: n = d.btext('abcdefgh.-', 230, 20)
    n = bytes(c for c in n if c not in bad)
    if n in (b'.', b'..', b''): n = b'x' + n
    return n

def ext(d):
    k = d.weighted([(4, 'known'), (1, 'unknown'), (1, 'none')])
    if k == 'none': return b''
    if k == 'unknown': return b'.' + d.choice([b'zzz', b'htmlx', b'ht', b'h', b'', b'jpgg', b'qqqq', b'1'])
    e = d.choice(sorted(MIME)).encode()
    return bytes(ord(chr(c).upper()) if d.bool(0.25) else c for c in e)

def mime(name):
    i = name.rfind(b'.')
    if i < 0: return None
    v = MIME.get(name[i:].lower().decode('latin-1'))
    return v.encode() if v else None

def spell(d, path, raw=0.8):
    """a percent-encoded spelling of the path; / stays"""
    out = b''
    mode = d.weighted([(4, 'min'), (2, 'mix'), (1, 'all')])
    for c in path:
        if c == 47: out += b'/'; continue
        plain = c in SAFE or (c >= 128 and mode == 'mix')
        if mode == 'all' or not plain or (mode == 'mix' and d.bool(0.2)):
            if c == 32 and d.bool(0.5): out += b'+'
            else: out += d.choice([b'%%%02x', b'%%%02X']) % c
        else: out += bytes([c])
    return out

def quote(b): return b"".join(bytes([c]) if c in SAFE else b"%%%02x" % c for c in b)

def put(path, data, mtime=None):
    with open(path, 'wb') as f: f.write(data)
    if mtime is not None: os.utime(path, (mtime, mtime))

class Tree(object):
    """a scratch directory under the served root, removed at the end of the case"""
    n = 0
    def __init__(self, srv, sub=None):
        Tree.n += 1
        self.rel = (sub or 'c%d' % (Tree.n % 7)).encode()
        self.path = os.path.join(srv.www.encode(), self.rel)
        shutil.rmtree(self.path, ignore_errors=True); os.makedirs(self.path)
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.path, ignore_errors=True)
