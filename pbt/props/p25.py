from .common import *
RULE = 'a value with nesting depth of at least two, or a mutated encoding'
FILES = ('viriatum_commons/encoding/bencoding.*', 'viriatum_commons/structures/type.*', 'viriatum_commons/structures/sort_map.*')
def gen_value(d, depth=0, kinds='islod'):
    k = d.weighted([(3, 'i'), (3, 's')] + ([(2, 'l'), (2, 'o')] if depth < 7 else []) + ([(1, 'm')] if depth < 7 and 'm' in kinds else []))
    if k == 'i': return d.weighted([(3, d.int(-20, 20)), (1, d.magic_int(0, 2 ** 31 - 1)), (1, -d.magic_int(0, 2 ** 31 - 1)), (1, -2 ** 31)])
    if k == 's': return d.bytes(300, small=8)
    n = d.size(12, small=4)
    if k == 'l': return [gen_value(d, depth + 1, kinds) for _ in range(n)]
    keys = []
    for _ in range(n):
        s = d.bytes(40, small=5).replace(b'\0', b'z')
        if s not in keys: keys.append(s)
    return {'t': k, 'i': [[s, gen_value(d, depth + 1, kinds)] for s in keys]}
def rec(v):
    if isinstance(v, int): return b'i' + u32(v & 0xffffffff)
    if isinstance(v, bytes): return b's' + lb(v)
    if isinstance(v, list): return b'l' + u32(len(v)) + b''.join(rec(x) for x in v)
    return v['t'].encode() + u32(len(v['i'])) + b''.join(lb(k) + rec(x) for k, x in v['i'])
def ben(v):
    if isinstance(v, int): return b'i%de' % v
    if isinstance(v, bytes): return b'%d:' % len(v) + v
    if isinstance(v, list): return b'l' + b''.join(map(ben, v)) + b'e'
    return b'd' + b''.join(ben(k) + ben(x) for k, x in v['i']) + b'e'
def norm(v):
    if isinstance(v, dict): return ('d', sorted((k, norm(x)) for k, x in v['i']))
    if isinstance(v, list): return ('l', [norm(x) for x in v])
    return v
def parse_dump(text):
    toks = text.decode().split(); pos = [0]
    def one():
        t = toks[pos[0]]; pos[0] += 1
        if t[0] == 'i': return int(t[1:])
        if t[0] == 'x': return bytes.fromhex(t[1:])
        if t == '[':
            out = []
            while toks[pos[0]] != ']': out.append(one())
            pos[0] += 1; return ('l', out)
        if t == '{':
            out = []
            while toks[pos[0]] != '}': k = one(); out.append((k, one()))
            pos[0] += 1; return ('d', sorted(out, key=lambda e: e[0]))
        raise Fail('unknown type in the decoded value')
    v = one()
    if pos[0] != len(toks): raise Fail('trailing values')
    return v
def srt(v):
    """order of the keys does not matter for equality"""
    if isinstance(v, tuple) and v[0] == 'd': return ('d', sorted(((k, srt(x)) for k, x in v[1]), key=lambda e: e[0]))
    if isinstance(v, tuple): return ('l', [srt(x) for x in v[1]])
    return v
def depth(v):
    if isinstance(v, list): return 1 + max([depth(x) for x in v] or [0])
    if isinstance(v, dict): return 1 + max([depth(x) for _, x in v['i']] or [0])
    return 0
def run_rt(env, case, note):
    v = case
    e = env.w.call('bee', rec(v))
    same(e[0], b'0', 'encode status'); same(e[1], ben(v), 'encoding')
    r = env.w.call('bed', e[1])
    same(r[0], b'0', 'decode status'); same(srt(parse_dump(r[1])), srt(norm(v)), 'decoding of the encoding')
    note.nt = depth(v) >= 2; note.label('depth %d' % min(depth(v), 5))
def run_file(env, case, note):
    r = env.w.call('bef', rec(case), 'be.tmp')
    same((r[0], r[1]), (b'0', b'0'), 'status'); same(srt(parse_dump(r[2])), srt(norm(case)), 'value read back from the file')
    note.nt = depth(case) >= 2
def run_hash(env, case, note):
    """hash maps have no order: the encoding is that of some order of the keys"""
    e = env.w.call('bee', rec(case)); same(e[0], b'0', 'encode status')
    r = env.w.call('bed', e[1]); same(r[0], b'0', 'decode status'); same(srt(parse_dump(r[1])), srt(norm(case)), 'decoding of the encoding')
    same(len(e[1]), len(ben(case)), 'length of the encoding'); note.nt = depth(case) >= 2
def gen_mut(d):
    b = bytearray(ben(gen_value(d)))
    for _ in range(d.int(1, 3)):
        k = d.weighted([(4, 'cut'), (3, 'set'), (2, 'del'), (2, 'ins'), (1, 'dup'), (1, 'tail')])
        if not b: break
        i = d.int(0, len(b) - 1)
        if k == 'cut': b = b[:i]
        elif k == 'set': b[i] = ord(d.choice('ilde:0123456789-x\x00\xff'))
        elif k == 'del': del b[i]
        elif k == 'ins': b[i:i] = d.choice([b'i', b'e', b'l', b'd', b':', b'9', b'-', b'0:', b'99999999999', b'4294967296:', b'18446744073709551615:'])
        elif k == 'dup': b[i:i] = b[i:i + 5]
        else: b += d.choice([b'e', b'i1e', b'0:', b'x'])
    return bytes(b)
def strict(b):
    """('ok', value) or ('trunc',) or ('bad',): reads one value and wants the end after it"""
    pos = 0
    class T(Exception): pass
    class X(Exception): pass
    def num(end, neg):
        nonlocal pos
        s = pos
        while True:
            if pos >= len(b): raise T()
            if b[pos] == end: break
            if not (48 <= b[pos] <= 57 or (neg and pos == s and b[pos] == 45)): raise X()
            pos += 1
        t = b[s:pos]; pos += 1
        if t in (b'', b'-'): raise X()
        return int(t)
    def one():
        nonlocal pos
        if pos >= len(b): raise T()
        c = b[pos]
        if c == 105: pos += 1; return num(101, True)
        if 48 <= c <= 57:
            n = num(58, False)
            if pos + n > len(b): raise T()
            s = bytes(b[pos:pos + n]); pos += n; return s
        if c == 108:
            pos += 1; out = []
            while True:
                if pos >= len(b): raise T()
                if b[pos] == 101: pos += 1; return ('l', out)
                out.append(one())
        if c == 100:
            pos += 1; out = {}
            while True:
                if pos >= len(b): raise T()
                if b[pos] == 101: pos += 1; return ('d', list(out.items()))
                k = one()
                if not isinstance(k, bytes): raise X()
                out[k.split(b'\0')[0]] = one()
        raise X()
    try:
        v = one()
        return ('ok', v) if pos == len(b) else ('bad',)
    except T: return ('trunc',)
    except X: return ('bad',)
def small(v):
    if isinstance(v, int): return -2 ** 31 <= v < 2 ** 31
    if isinstance(v, tuple): return all(small(x) for x in v[1]) if v[0] == 'l' else all(small(x[1]) for x in v[1])
    return True
def run_mut(env, case, note):
    r = env.w.call('bed', case); s = strict(case)
    if s[0] == 'ok':
        if small(s[1]):
            same(r[0], b'0', 'status for a well-formed text'); same(srt(parse_dump(r[1])), srt(s[1]), 'decoding')
    elif s[0] == 'trunc': same(r[0], b'1', 'status for a truncated text')
    note.nt = True; note.label(s[0])
def gen_large(d):
    k = d.choice(['s', 'l', 'o'])
    if k == 's': return [wide_bytes(d), d.int(0, 9)]
    if k == 'l': return [d.int(0, 9), [i % 300 if i % 3 else blob(i, i % 60) for i in range(wide(d, 3000))]]
    return {'t': 'o', 'i': [[b'%d' % (i * 7919 % 100003), i] for i in range(wide(d, 2500))]}
CHECKS = [Check('large', gen_large, run_rt, 240, files=FILES), Check('round-trip', lambda d: gen_value(d), run_rt, 40000, files=FILES), Check('file', lambda d: gen_value(d), run_file, 4000, files=FILES),
          Check('hash-map', lambda d: gen_value(d, 0, 'm'), run_hash, 10000, files=FILES), Check('mutated', gen_mut, run_mut, 60000, files=FILES)]
