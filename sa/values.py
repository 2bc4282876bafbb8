"""Abstract values: wrapped intervals x linear forms mod 2^k x bit provenance x residues mod q x labels.

A value V of width w stands for a set of w-bit words.  [lo,hi] is an integer interval with hi-lo < 2^w, the word
being the interval member mod 2^w ("representative").  lin=(c,{sym:coef}) says word = c+sum(coef*sym) (mod 2^lm);
cq=(c,{sym:coef}) says representative = c+sum (mod Q); bits is a tuple of w entries 0,1,(sym,i) or None (unknown);
lab is a bit mask of data-flow labels; cond keeps the comparison a truth value came from."""

Q = 12289

class Sym:
    __slots__ = ("id", "name", "lo", "hi", "lab", "org")
    n = 0
    def __init__(self, name, lo, hi, lab=0, org=None):
        Sym.n += 1
        self.id = Sym.n; self.name = name; self.lo = lo; self.hi = hi; self.lab = lab; self.org = org
    def __repr__(self):
        return "%s#%d" % (self.name, self.id)
    def __lt__(self, o):
        return self.id < o.id

# ------------------------------------------------------------------ linear forms
def ladd(a, b, k=1):
    """a + k*b"""
    t = dict(a[1])
    for s, c in b[1].items():
        v = t.get(s, 0) + k * c
        if v: t[s] = v
        else: t.pop(s, None)
    return (a[0] + k * b[0], t)

def lscale(a, k):
    if k == 0: return (0, {})
    return (a[0] * k, {s: c * k for s, c in a[1].items()})

def lconst(c):
    return (c, {})

def leq(a, b):
    return a[0] == b[0] and a[1] == b[1]

def lsub_eq(a, b, m):
    """a == b modulo 2^m (coefficients compared modulo too)"""
    d = ladd(a, b, -1)
    M = 1 << m
    return d[0] % M == 0 and all(c % M == 0 for c in d[1].values())

def lkey(a):
    return (a[0], tuple(sorted(((s.id, c) for s, c in a[1].items()))))

def lstr(a):
    if a is None: return "?"
    r = []
    for s, c in a[1].items():
        r.append("%s%r" % ("" if c == 1 else "%d*" % c, s))
    if a[0] or not r: r.append(str(a[0]))
    return "+".join(r)

def lsubst(a, m):
    out = (a[0], {})
    for s, c in a[1].items():
        r = m.get(s)
        out = ladd(out, r if r is not None else (0, {s: 1}), c)
    return out

MAXTERMS = 10

class V:
    __slots__ = ("w", "lo", "hi", "lin", "lm", "bits", "cq", "lab", "cond", "named", "tm")
    def __init__(self, w, lo, hi, lin=None, lm=None, bits=None, cq=None, lab=0, cond=None):
        M = 1 << w
        if hi - lo >= M - 1:
            if lo < -(M >> 1) or hi >= M:      # canonical full interval
                lo = 0; hi = M - 1; cq = None
        else:
            H = M >> 1
            if not (-H <= lo < H):
                sh = ((lo + H) // M) * M
                if lo >= H and hi < M:
                    sh = 0                      # keep plain unsigned form
                if sh:
                    lo -= sh; hi -= sh
                    if cq is not None: cq = ((cq[0] - sh) % Q, cq[1])
        self.w = w; self.lo = lo; self.hi = hi
        self.lin = lin
        self.lm = w if lm is None else lm
        self.bits = bits; self.cq = cq; self.lab = lab; self.cond = cond; self.named = None; self.tm = None
    def const(self):
        return self.lo == self.hi
    def cval(self):
        return self.lo % (1 << self.w)
    def __repr__(self):
        s = "i%d[%d,%d]" % (self.w, self.lo, self.hi)
        if self.lin is not None and self.lin[1]:
            s += "=" + lstr(self.lin) + ("" if self.lm == self.w else "(mod 2^%d)" % self.lm)
        if self.cq is not None and len(self.cq[1]) < 6: s += " q:" + lstr(self.cq)
        if self.lab: s += " L%x" % self.lab
        return s

_consts = {}
def C(w, v):
    k = (w, v)
    r = _consts.get(k)
    if r is None:
        M = 1 << w
        u = v % M
        s = u - M if u >> (w - 1) and w > 1 else u
        r = V(w, s, s, (s, {}), w)
        if len(_consts) < 200000: _consts[k] = r
    return r

def top(w, lab=0):
    return V(w, 0, (1 << w) - 1, lab=lab)

class P:
    """pointer: object id (None: null) and 64-bit byte offset"""
    __slots__ = ("obj", "off", "lab")
    def __init__(self, obj, off, lab=0):
        self.obj = obj; self.off = off; self.lab = lab
    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)

NULL = P(None, C(64, 0))

class FP_:
    """function pointer"""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name

def urange(v):
    if v.lo >= 0 and v.hi < (1 << v.w): return v.lo, v.hi
    if v.hi < 0: return v.lo + (1 << v.w), v.hi + (1 << v.w)
    if v.lo >= (1 << v.w): return v.lo - (1 << v.w), v.hi - (1 << v.w)
    return 0, (1 << v.w) - 1

def urange2(w, lo, hi):
    M = 1 << w
    if lo >= 0 and hi < M: return lo, hi
    if hi < 0 and lo >= -M: return lo + M, hi + M
    return 0, M - 1

def srange2(w, lo, hi):
    H = 1 << (w - 1)
    if lo >= -H and hi < H: return lo, hi
    if lo >= H and hi < 2 * H: return lo - 2 * H, hi - 2 * H
    return -H, H - 1

def ctz(n, w):
    if n == 0: return w
    return min(w, (n & -n).bit_length() - 1)

def lin_tz(lin, lm):
    t = ctz(lin[0], lm)
    for c in lin[1].values():
        t = min(t, ctz(c, lm))
        if t == 0: return 0
    return t

def const_bits(w, v):
    v %= 1 << w
    return tuple((v >> i) & 1 for i in range(w))

def getbits(v):
    if v.bits is not None: return v.bits
    if v.lo == v.hi: return const_bits(v.w, v.lo)
    return None
