from .common import *
RULE = 'texts: at least two characters; formats: a value of at least two units'
FILES = ('viriatum_commons/util/string_util.h',)
C = 'abcXYZ019_-. /\\,;:[]\xe9\xff\t'
def gen_text(d):
    k = d.choice(['t', 'l', 'u', 'n', 'x', 'b', 'e', 'T', 'L'])
    lo = 1 if k == 'x' else 0
    s = d.btext(C, 300, lo)
    a = b''
    if k == 'e': a = s[d.int(0, len(s)):] if d.bool(0.5) else (d.btext(C, 3) + s if d.bool(0.3) else d.btext('abc.', 6))
    if k == 'e' and a and d.bool(0.2): a = bytes([a[0] ^ 1 or 2]) + a[1:]
    if k in 'TL': s = b' ' * d.size(20) + s + b' ' * d.size(20)
    if k == 'b': s = d.choice([b'On', b'True', b'1', b'on', b'O', b'', b'11', b'True ', b'Tru', b'0', s])
    return [k, s, a]
def low(s, a, b, f): return bytes(b if c == a else f(c) for c in s)
def run_text(env, case, note):
    k, s, a = case
    r = env.w.call('sut', k, s, a)
    lo = lambda c: c + 32 if 65 <= c <= 90 else c
    up = lambda c: c - 32 if 97 <= c <= 122 else c
    if k == 't': want = [s if len(s) < 3 else s[1:-1], s]
    elif k == 'l': want = [low(s, 95, 45, lo)]
    elif k == 'u': want = [low(s, 45, 95, up)]
    elif k == 'n': want = [s.replace(b'\\', b'/')]
    elif k == 'x':
        i = s.rfind(b'.'); i = max(i, 0); want = [s[i:], b'%d' % i]
    elif k == 'b': want = [b'1' if s in (b'On', b'True', b'1') else b'0']
    elif k == 'e': want = [b'1' if s.endswith(a) else b'0']
    elif k == 'T': want = [b'%d' % len(s.rstrip(b' '))]
    else: want = [b'%d' % (len(s) - len(s.lstrip(b' ')))]
    same(r, want, '%s of %s %s' % (k, short(s), short(a)))
    note.nt = len(s) >= 2; note.label(k)
def gen_split(d):
    tok = d.choice(b' ,;/:')
    parts = [d.btext(C.replace(chr(tok), ''), 60, small=5) for _ in range(d.size(40, 1))]
    return [tok, parts, d.choice([0, 0, 1, 50])]
def run_split(env, case, note):
    tok, parts, more = case
    e = max(len(p) for p in parts) + 1 + more
    r = env.w.call('sut', 's', bytes([tok]).join(parts), e, len(parts), bytes([tok]))
    same(r, [b'%d' % len(parts)] + parts, 'pieces')
    note.nt = len(parts) >= 2
def delta_model(v, counts):
    us = [('day', v // 86400), ('hour', v % 86400 // 3600), ('minute', v % 3600 // 60), ('second', v % 60)]
    while len(us) > 1 and us[0][1] == 0: us.pop(0)
    return ' '.join('%d %s' % (n, u if n == 1 else u + 's') for u, n in us[:counts])
def gen_delta(d):
    v = d.int(0, 59) + 60 * d.choice([0, 1, 2, 59, d.int(0, 59)]) + 3600 * d.choice([0, 0, 1, 23, d.int(0, 23)]) + 86400 * d.choice([0, 0, 1, 2, d.int(0, 24855)])
    return [v, d.int(1, 5), d.choice([128, 128, 64, None]), d.int(1, 60)]
def run_delta(env, case, note):
    v, counts, big, small = case; size = big or small
    want = delta_model(v, counts).encode()
    r = env.w.call('sut', 'd', '', size, str(v), counts)
    text = r[0]
    expect(len(text) < size, 'not terminated in a buffer of %d bytes: %s', size, short(text))
    # one trailing space may remain; a text that does not fit is cut
    if len(want) + 1 < size: same(text.rstrip(b' '), want, 'duration %d with %d units' % (v, counts))
    else: expect((want + b' ').startswith(text), 'duration %d in %d bytes: %s', v, size, short(text))
    note.nt = v >= 60; note.label('cut', len(want) + 1 >= size)
def gen_bytes(d):
    k = d.int(0, 3)
    unit = 1024 ** k
    n = d.weighted([(3, d.int(0, 20 * unit)), (3, d.int(0, 2000) * unit), (2, unit * d.int(0, 2048) // 2 + d.int(-2, 2)), (1, d.magic_int(0, 2 ** 40))])
    return [max(0, n), d.choice([128, 128, None]), d.int(1, 20)]
def run_bytes(env, case, note):
    n, big, small = case; size = big or small
    r = env.w.call('sut', 'f', '', size, str(n))
    text = r[0].decode()
    expect(len(text) < size, 'not terminated')
    # definition: the largest unit in which the rounded amount is not zero; one decimal below ten, none otherwise
    for unit, name in ((1024 ** 3, 'GByte'), (1024 ** 2, 'MByte'), (1024, 'KByte'), (1, 'Byte')):
        v = (2 * n + unit) // (2 * unit)
        if v > 0 or unit == 1: break
    num = ('%.1f' % (n / unit)) if v < 10 else '%d' % v
    want = '%s %s' % (num, name if v == 1 else name + 's')
    same(text, want[:size - 1], 'size %d' % n)
    note.nt = n >= 1024; note.label(name)
def gen_ltext(d):
    k = d.choice('tlunxeTL'); s = bytes(C[c % len(C)].encode('latin-1')[0] for c in wide_bytes(d, 70000)) or b'a'
    if k in 'TL': s = b' ' * wide(d, 70000) + s + b' ' * wide(d, 70000)
    return [k, s, s[d.int(0, len(s)):] if k == 'e' else b'']
CHECKS = [Check('large', gen_ltext, run_text, 400, files=FILES), Check('texts', gen_text, run_text, 80000, files=FILES), Check('split', gen_split, run_split, 30000, files=FILES), Check('durations', gen_delta, run_delta, 40000, files=FILES), Check('sizes', gen_bytes, run_bytes, 40000, files=FILES)]
