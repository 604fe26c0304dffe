from .common import *
import re, urllib.parse
RULE = 'at least one byte that needs an escape; for texts: at least one percent sign or plus sign'
FILES = ('viriatum_commons/encoding/percent.*',)
OK = re.compile(rb'^(?:[A-Za-z0-9._~+-]|%[0-9a-fA-F]{2})*$')
def gen_rt(d): return d.bytes(2500, small=20)
def run_rt(env, case, note):
    e, t, e2, t2, bad = env.w.call('pce', case)
    same((e, e2, bad), (b'0', b'0', b'0'), 'status, status, bytes after the end')
    expect(OK.match(t), 'not an encoded text: %s', short(t))
    same(t2, t, 'second interface')
    same(urllib.parse.unquote_to_bytes(t.replace(b'+', b' ')), case, 'meaning of the encoding')
    r = env.w.call('pcd', t)
    same(r[0], b'0', 'decode status'); same(r[1], case, 'decoding of the encoding')
    note.nt = b'%' in t
ATOMS = [b'%', b'%2', b'%41', b'%4g', b'%g4', b'%%', b'+', b'a', b'/', b' ', b'%00', b'%2B', b'%2b', b'%fF', b'\xff', b'%ff', b'%0', b'%%41', b'A', b'%aB', b'% 1', b'%-1', b'%+1', b'%1:', b'%`0', b'%@0', b'%G0', b'%/0']
def gen_text(d):
    n = d.size(60, small=6)
    return b''.join(d.choice(ATOMS) if d.bool(0.85) else bytes([d.int(1, 255)]) for _ in range(n))
HEX = b'0123456789abcdefABCDEF'
def model(t):
    out = bytearray(); i = 0
    while i < len(t):
        c = t[i]
        if c == 37:
            if i + 2 >= len(t) or t[i + 1] not in HEX or t[i + 2] not in HEX: return None
            out.append(int(t[i + 1:i + 3], 16)); i += 3
        else: out.append(32 if c == 43 else c); i += 1
    return bytes(out)
def run_text(env, case, note):
    r = env.w.call('pcd', case); want = model(case)
    if want is None: same(r[0], b'1', 'status for a malformed escape')
    else:
        same(r[0], b'0', 'status'); same(r[1], want, 'decoding'); same(r[3], want, 'decoding in place'); same(r[4], b'0', 'bytes after the end')
    note.nt = b'%' in case or b'+' in case; note.label('malformed', want is None)
CHECKS = [Check('large', lambda d: wide_bytes(d), run_rt, 800, files=FILES), Check('round-trip', gen_rt, run_rt, 50000, files=FILES), Check('texts', gen_text, run_text, 120000, files=FILES)]
