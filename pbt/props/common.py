from ..core import Check
from ..engine import Fail, Draw, blob, enc
from ..worker import Crash, u8, u32, u64, lb

def expect(cond, msg, *args):
    if not cond: raise Fail(msg % args if args else msg)

def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)

def same(got, want, what):
    if got != want: raise Fail('%s: got %s, expected %s' % (what, short(got), short(want)))

def same_lines(text, want, ops, what):
    """text: the worker's reply, one line per observation; want: list of strings"""
    got = text.decode('latin-1').split('\n')[:-1]
    for i, w in enumerate(want):
        g = got[i] if i < len(got) else '<nothing>'
        if g.strip() != w.strip(): raise Fail('%s: observation %d is %s, expected %s' % (what, i, short(g), short(w)))
    if len(got) != len(want): raise Fail('%s: %d observations, expected %d' % (what, len(got), len(want)))


def value(d):
    """a stored value; the null value is an ordinary value"""
    return 0 if d.bool(0.06) else d.int(1, 1000)

WIDE = [255, 256, 1023, 1024, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 131072]
def wide(d, hi=140000):
    """a size at which counters of 8, 15, 16 or 17 bits or buffers of usual sizes end, or any up to there"""
    n = d.weighted([(3, 1), (1, 0)])
    if n: n = d.choice([w for w in WIDE if w < hi]) + d.int(-2, 2)
    else: n = d.int(0, hi)
    return n
def wide_bytes(d, hi=140000): return blob(d.int(0, 2 ** 20), wide(d, hi))
