"""A small property-based testing engine.

A generator is a function of a `Draw`, which hands out integers from a recorded choice sequence. Generation is a
pure function of (VERIF_SEED, property, check, shard, case number). Failing cases are shrunk by shortening and
lowering the choice sequence (internal shrinking), so every generator shrinks without further code."""
import hashlib, random, time

class Fail(Exception):
    """the property does not hold for this case"""
class Invalid(Exception):
    """the choice sequence does not describe a case"""

class Draw(object):
    def __init__(self, rng=None, prefix=None, magic=None):
        self.rng, self.prefix, self.choices, self.magic = rng, prefix, [], magic or MAGIC
    def _pick(self, lo, hi, value=None):
        """value: thunk giving a random value; the choice recorded is the offset to lo"""
        i = len(self.choices)
        if self.prefix is not None and i < len(self.prefix):
            c = self.prefix[i]
            if c > hi - lo: c = hi - lo
        elif self.rng is None: c = 0
        else: c = (value() - lo) if value else self.rng.randint(0, hi - lo)
        if i > 60000: raise Invalid()
        self.choices.append(c)
        return lo + c
    def int(self, lo, hi):
        """uniform"""
        if hi <= lo: return lo
        return self._pick(lo, hi)
    def bool(self, p=0.5):
        return bool(self._pick(0, 1, lambda: 1 if self.rng.random() < p else 0))
    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]
    def weighted(self, pairs):
        """pairs of (weight, value); the first ones are the simplest"""
        tot = sum(w for w, _ in pairs)
        def value():
            x = self.rng.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0: return i
            return len(pairs) - 1
        return pairs[self._pick(0, len(pairs) - 1, value)][1]
    def size(self, hi, lo=0, small=8):
        """a length: mostly small, sometimes anything, sometimes next to a boundary"""
        if hi <= lo: return lo
        def value():
            r = self.rng.random()
            if r < 0.55: v = lo + self.rng.randint(0, small)
            elif r < 0.70: v = lo + int(self.rng.expovariate(1.0 / max(1, (hi - lo) / 8.0)))
            elif r < 0.80: v = self.rng.randint(lo, hi)
            else:
                c = [m for m in self.magic if lo <= m <= hi]
                v = self.rng.choice(c) + self.rng.choice((-1, 0, 0, 1)) if c else self.rng.randint(lo, hi)
            return min(max(v, lo), hi)
        return self._pick(lo, hi, value)
    def magic_int(self, lo, hi):
        """an integer, often next to a boundary"""
        if hi <= lo: return lo
        def value():
            if self.rng.random() < 0.5: return self.rng.randint(lo, hi)
            c = [m for m in self.magic if lo <= m <= hi]
            v = (self.rng.choice(c) if c else lo) + self.rng.choice((-1, 0, 0, 1))
            return min(max(v, lo), hi)
        return self._pick(lo, hi, value)
    def list(self, f, hi, lo=0, small=8):
        return [f(self) for _ in range(self.size(hi, lo, small))]
    def text(self, alphabet, hi, lo=0, small=8):
        return ''.join(self.choice(alphabet) for _ in range(self.size(hi, lo, small)))
    def btext(self, alphabet, hi, lo=0, small=8):
        return self.text(alphabet, hi, lo, small).encode('latin-1')
    def bytes(self, hi, lo=0, small=8):
        """bytes of several kinds; long ones come from a seed so that the choice sequence stays short"""
        n = self.size(hi, lo, small)
        k = self.weighted([(3, 'any'), (1, 'few'), (2, 'seed'), (1, 'rep')])
        if n > 400 and k in ('any', 'few'): k = 'seed'
        if k == 'any': return bytes(self.int(0, 255) for _ in range(n))
        if k == 'few':
            a = [self.int(0, 255) for _ in range(3)]
            return bytes(self.choice(a) for _ in range(n))
        if k == 'rep':
            return bytes([self.choice([0, 255, 65, 10, 13, 37, 128])]) * n
        return blob(self.int(0, 2 ** 32 - 1), n)
    def blob(self, hi, lo=0, small=8):
        n = self.size(hi, lo, small)
        return (self.int(0, 2 ** 20), n)

MAGIC = sorted(set([2 ** i for i in range(0, 23)] + [3 * 2 ** i for i in range(1, 12)] + [10, 100, 1000, 10000, 55, 56, 63, 119, 120, 250, 300, 1400, 9999, 99999, 65535, 262144, 524288]))

def blob(seed, n):
    """n deterministic bytes; the seed also selects their look: uniform, text, runs, few symbols"""
    r = random.Random(seed)
    k = seed % 5
    if k == 0: return bytes(n)
    if k == 1 and n: return (b'The quick brown fox jumps over the lazy dog %d\n' % seed * (n // 40 + 1))[:n]
    if k == 2 and n:
        out = bytearray()
        while len(out) < n: out += bytes([r.randint(0, 255)]) * r.randint(1, 60)
        return bytes(out[:n])
    if k == 3: return bytes(r.choices([13, 10, 48, 0, 255, 37], k=n))
    return r.randbytes(n)

def rng_for(*key):
    return random.Random('/'.join(str(k) for k in key))

def enc(x):
    """case -> JSON"""
    if isinstance(x, (bytes, bytearray)):
        try:
            s = x.decode('ascii')
            if all(c.isprintable() or c in '\r\n\t' for c in s): return {'b': s}
        except UnicodeDecodeError: pass
        return {'x': bytes(x).hex()}
    if isinstance(x, (list, tuple)): return [enc(i) for i in x]
    if isinstance(x, dict): return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    return x
def dec(x):
    if isinstance(x, list): return [dec(i) for i in x]
    if isinstance(x, dict):
        if 'b' in x: return x['b'].encode('ascii')
        if 'x' in x: return bytes.fromhex(x['x'])
        return {(tuple(k) if isinstance(k, list) else k): v for k, v in ((dec(k), dec(v)) for k, v in x['d'])}
    return x

def digest(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=8).hexdigest()

def shrink(gen, fails, choices, budget, stop=lambda: False):
    """gen(Draw) -> case; fails(case) -> bool. returns the smallest choice sequence found within the budget"""
    end = time.monotonic() + budget
    best = list(choices); seen = set(); tries = [0]
    def attempt(c):
        nonlocal best
        k = tuple(c)
        if k in seen or time.monotonic() > end or stop(): return False
        seen.add(k)
        d = Draw(prefix=c)
        try: case = gen(d)
        except Invalid: return False
        got = d.choices
        if (len(got), got) >= (len(best), best): return False
        tries[0] += 1
        if fails(case):
            best = got
            return True
        return False
    changed = True
    while changed and time.monotonic() < end:
        before = list(best)
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if i > len(best) - size: i = len(best) - size
                if i < 0: break
                if not attempt(best[:i] + best[i + size:]):
                    # dropping elements while lowering a length drawn before them
                    done = False
                    if size <= 16:
                        for j in range(max(0, i - 6), i):
                            if best[j] > 0:
                                c = best[:i] + best[i + size:]; c[j] -= 1
                                if attempt(c): done = True; break
                    if not done: i -= size if size < 4 else max(1, size // 2)
                if time.monotonic() > end: return best, tries[0]
            size //= 2
        # lengths drawn early: lower them together with deleting that many trailing elements
        for i in range(len(best)):
            if i >= len(best): break
            if best[i] == 0: continue
            if attempt(best[:i] + [0] + best[i + 1:]): continue
            lo, hi = 0, best[i]
            while lo + 1 < hi and time.monotonic() < end:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]): hi = best[i] if i < len(best) else 0
                else: lo = mid
            if i < len(best) and best[i] > 0: attempt(best[:i] + [best[i] - 1] + best[i + 1:])
        for n in (8, 4, 2):
            for i in range(0, max(0, len(best) - n)):
                if any(best[i:i + n]): attempt(best[:i] + [0] * n + best[i + n:])
        changed = best != before
    return best, tries[0]
