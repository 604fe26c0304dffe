from .common import *
import base64, re
RULE = 'decoding: a text that is not the unchanged output of the encoder, or with padding; encoding: length not a multiple of three'
FILES = ('viriatum_commons/encoding/base_64.*',)
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
def gen_rt(d): return d.bytes(3000, small=20)
def run_rt(env, case, note):
    e, text = env.w.call('b64e', case)
    same(e, b'0', 'encode status')
    text = text.rstrip(b'\0') if text.endswith(b'\0') and not base64.b64encode(case).endswith(b'\0') else text
    same(text, base64.b64encode(case), 'encoding')
    r = env.w.call('b64d', text)
    same(r[0], b'0', 'decode status'); same(r[1], case, 'decoding of the encoding')
    note.nt = len(case) % 3 != 0
def gen_bad(d):
    b = bytearray(base64.b64encode(d.bytes(300, small=12)))
    k = d.weighted([(3, 'char'), (3, 'cut'), (2, 'add'), (1, 'pad'), (1, 'rand'), (2, 'ok')])
    if k == 'char' and b: b[d.int(0, len(b) - 1)] = d.weighted([(3, d.int(0, 255)), (1, 32), (1, 10), (1, 45), (1, 95), (1, 61), (1, 0)])
    elif k == 'cut' and b: del b[len(b) - d.int(1, min(3, len(b))):]
    elif k == 'add': b += bytes(ord(d.choice(ALPHA)) for _ in range(d.int(1, 3)))
    elif k == 'pad': b += b'=' * d.int(1, 4)
    elif k == 'rand': b = bytearray(d.bytes(40))
    return bytes(b)
def run_bad(env, case, note):
    r = env.w.call('b64d', case)
    t = case.rstrip(b'=') if len(case) - len(case.rstrip(b'=')) <= 2 else case
    valid = len(case) % 4 == 0 and all(chr(c) in ALPHA for c in t)
    if valid:
        same(r[0], b'0', 'status for valid text')
        same(r[1], base64.b64decode(case), 'decoding')
    elif len(case) % 4 or any(chr(c) not in ALPHA + '=' for c in case):
        same(r[0], b'1', 'status for invalid text')
    # padding in the middle or too much of it: only that nothing breaks
    note.nt = not valid or t != case; note.label('valid', valid)
CHECKS = [Check('large', lambda d: wide_bytes(d), run_rt, 800, files=FILES), Check('round-trip', gen_rt, run_rt, 60000, files=FILES), Check('texts', gen_bad, run_bad, 100000, files=FILES)]
