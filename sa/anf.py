"""Words as algebraic normal forms over bits of lanes, and the reference rounds of Keccak-f[1600].

A word is a dict {monomial: mask}: bit p of the word is the sum modulo 2, over the monomials whose mask has bit p, of the product of the
bits p - s of lane x over the pairs (x, s) of the monomial.  The form is unique, so equal forms are equal functions of the lanes."""
ONE = frozenset()
M64 = (1 << 64) - 1

def const(c): return {ONE: c} if c else {}
def lane(x, w=64): return {frozenset([(x, 0)]): (1 << w) - 1}
def xor(a, b):
    r = dict(a)
    for m, k in b.items():
        k ^= r.get(m, 0)
        if k: r[m] = k
        else: r.pop(m, None)
    return r
class TooBig(Exception): pass
WORK = [0, 0]
def and_(a, b):
    n = len(a) * len(b); WORK[0] += n; WORK[1] = max(WORK[1], n)
    if n > 20000 or WORK[0] > 8000000: raise TooBig("a word is not that of the definition at any round: its normal form grows")
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            z = k & l
            if not z: continue
            mn = m | n; z ^= r.get(mn, 0)
            if z: r[mn] = z
            else: r.pop(mn, None)
    return r
def or_(a, b): return xor(xor(a, b), and_(a, b))
def shl(a, k, width=256):
    r = {}; full = (1 << width) - 1
    for m, c in a.items():
        c = c << k & full
        if c: r[frozenset((x, s + k) for x, s in m)] = c
    return r
def shr(a, k):
    r = {}
    for m, c in a.items():
        c >>= k
        if c: r[frozenset((x, s - k) for x, s in m)] = c
    return r
def rol(a, k):
    k %= 64
    return a if k == 0 else xor(shl(a, k, 64), shr(a, 64 - k))
def disjoint(a, b): return not and_(a, b)
def key(a): return frozenset(a.items())
def neg(a): return xor(a, const(M64))

def rc_table():
    out = []; r = 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1: c |= 1 << ((1 << j) - 1)
            r = r << 1 ^ (0x171 if r & 0x80 else 0)
        out.append(c)
    return out
def rho_table():
    t = {(0, 0): 0}; x, y = 1, 0
    for i in range(24):
        t[(x, y)] = (i + 1) * (i + 2) // 2 % 64; x, y = y, (2 * x + 3 * y) % 5
    return t
RC = rc_table(); RHO = rho_table()

def round_ref(r):
    "the 25 lanes after round r (0..23), lane x + 5 y, over the lanes ('L', r, i) before it"
    a = [lane(("L", r, i)) for i in range(25)]
    c = [xor(xor(xor(a[x], a[x + 5]), xor(a[x + 10], a[x + 15])), a[x + 20]) for x in range(5)]
    d = [xor(c[(x + 4) % 5], rol(c[(x + 1) % 5], 1)) for x in range(5)]
    b = [None] * 25
    for x in range(5):
        for y in range(5): b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(xor(a[x + 5 * y], d[x]), RHO[(x, y)])
    o = [xor(b[x + 5 * y], and_(neg(b[(x + 1) % 5 + 5 * y]), b[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
    o[0] = xor(o[0], const(RC[r]))
    return o

class Cut:
    "replaces a word equal to a lane after some round (or its complement) by that lane as an atom"
    def __init__(self):
        self.t = {}; self.hits = {}
        for r in range(24):
            for i, v in enumerate(round_ref(r)):
                self.t[key(v)] = ("L", r + 1, i, False); self.t[key(neg(v))] = ("L", r + 1, i, True)
    def __call__(self, v):
        if len(v) < 8: return v
        h = self.t.get(key(v))
        if h is None: return v
        self.hits[h[:3]] = self.hits.get(h[:3], 0) + 1
        w = lane(h[:3])
        return neg(w) if h[3] else w
_cut = []
def cut():
    if not _cut: _cut.append(Cut())
    return _cut[0]
