from .common import *
RULE = 'data of more than 256 bytes, or several calls, or key bytes above 0x7f'
FILES = ('viriatum_commons/crypto/*.c',)
def gen(d):
    key = d.bytes(300, 1, small=16).replace(b'\0', b'k')
    data = d.bytes(3000, small=40)
    return [key, data, [d.size(300, small=20) for _ in range(d.size(8, small=3))]]
def stream(key, n):
    s = list(range(256)); j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255; s[i], s[j] = s[j], s[i]
    i = j = 0; out = bytearray()
    for _ in range(n):
        i = (i + 1) & 255; j = (j + s[i]) & 255; s[i], s[j] = s[j], s[i]; out.append(s[(s[i] + s[j]) & 255])
    return out
def run(env, case, note):
    key, data, parts = case
    r = env.w.call('rc4', key, data, b''.join(u32(p) for p in parts))
    want = bytes(a ^ b for a, b in zip(data, stream(key, len(data))))
    same(r[0], want, 'ciphered data'); same(r[1], data, 'deciphered data'); same(r[2], b'1', 'input left unchanged')
    if len(r) > 3: same(r[3], want, 'message interface')
    note.nt = len(data) > 256 or len(parts) > 0 or max(key) > 127
def gen_large(d): return [d.bytes(300, 1, small=16).replace(b'\0', b'k'), wide_bytes(d, 70000), [wide(d, 40000) for _ in range(d.int(0, 3))]]
CHECKS = [Check('large', gen_large, run, 240, files=FILES), Check('cipher', gen, run, 40000, files=FILES)]
