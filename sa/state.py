"""Abstract machine state: memory objects, symbol bounds, linear facts, monitors."""
from .values import *

class Seg:
    """bytes [start,end) of an object (linear offsets), made of elements of `sz` bytes all described by `v`;
    prov=(obj,delta): byte at p is a copy of byte p+delta of obj."""
    __slots__ = ("start", "end", "sz", "v", "prov")
    def __init__(self, start, end, sz, v, prov=None):
        self.start = start; self.end = end; self.sz = sz; self.v = v; self.prov = prov
    def __repr__(self):
        return "[%s,%s)/%d %r prov=%s" % (lstr(self.start), lstr(self.end), self.sz, self.v,
                                         self.prov and (self.prov[0], lstr(self.prov[1])))

class Obj:
    __slots__ = ("name", "size", "cells", "default", "ro", "segs", "sym", "lab", "watch", "smear", "desc", "written")
    def __init__(self, name, size, default="uninit", ro=False, lab=0, watch=False, desc=None):
        self.name = name
        self.size = size if isinstance(size, tuple) else (size, {})
        self.cells = {}          # offset -> (size, V|P)
        self.default = default   # 'uninit' | 'zero' | 'input' (fresh bytes, label lab) | 'top'
        self.ro = ro; self.segs = []; self.sym = {}
        self.lab = lab; self.watch = watch
        self.smear = None        # label mask of weak writes to unknown places (content unknown)
        self.desc = desc or name
        self.written = False
    def clone(self):
        o = Obj.__new__(Obj)
        o.name = self.name; o.size = self.size; o.cells = dict(self.cells); o.default = self.default
        o.ro = self.ro; o.segs = list(self.segs); o.sym = dict(self.sym); o.lab = self.lab
        o.watch = self.watch; o.smear = self.smear; o.desc = self.desc; o.written = self.written
        return o

DEEP = False      # look for exact linear forms through the recorded facts (long sums)

class State:
    __slots__ = ("mem", "own", "sb", "facts", "mon", "ev", "bf", "budget")
    maxfacts = 60
    def __init__(self):
        self.mem = {}; self.own = set(); self.sb = {}; self.facts = []; self.mon = {}; self.ev = (); self.bf = {}
    def fork(self):
        s = type(self).__new__(type(self))
        s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.sb = dict(self.sb); s.facts = list(self.facts); s.mon = dict(self.mon); s.ev = self.ev; s.bf = dict(self.bf) if self.bf else {}
        return s
    def w(self, name):
        """object for writing (copy on write)"""
        o = self.mem[name]
        if name not in self.own:
            o = o.clone(); self.mem[name] = o; self.own.add(name)
        return o
    # ------------------------------------------------------------ ranges
    def sbounds(self, s):
        b = self.sb.get(s)
        return b if b is not None else (s.lo, s.hi)
    def leval(self, lin):
        lo = hi = lin[0]
        sb = self.sb
        for s, c in lin[1].items():
            b = sb.get(s)
            if b is None: a, d = s.lo, s.hi
            else: a, d = b
            if c > 0: lo += c * a; hi += c * d
            else: lo += c * d; hi += c * a
        return lo, hi
    def prove(self, lin, depth=3):
        """lin >= 0 follows from bounds and facts (bounded search for a non-negative combination)"""
        lo, hi = self.leval(lin)
        if lo >= 0: return True
        if hi < 0 or not lin[1] or not self.facts: return False
        for f in self.facts:
            if f[1] == lin[1] and f[0] <= lin[0]: return True
        self.budget = 90
        if depth > 1:
            if self._prove(lin, 1): return True
            self.budget = 90
        return self._prove(lin, depth)
    def _prove(self, lin, depth):
        t = lin[1]
        for f in reversed(self.facts):
            m = 0
            for s, c in f[1].items():
                k = t.get(s)
                if k is not None:
                    if c > 0:
                        if k >= c and k % c == 0:
                            x = k // c
                            if not m or x < m: m = x
                    elif k <= c and k % c == 0:
                        x = k // c
                        if not m or x < m: m = x
            if not m: continue
            self.budget -= 1
            if self.budget < 0: return False
            r = ladd(lin, f, -m)
            lo, hi = self.leval(r)
            if lo >= 0: return True
            if depth > 1 and hi >= 0 and r[1] and len(r[1]) <= len(t) + 1:
                if self._prove(r, depth - 1): return True
        return False
    def upper(self, lin, depth=3):
        """upper bound of lin using bounds and facts (lin <= lin + m*f for f >= 0)"""
        best = self.leval(lin)[1]
        if not self.facts or not lin[1]: return best
        self.budget = 60
        return self._upper(lin, depth, best)
    def _upper(self, lin, depth, best):
        t = lin[1]
        for f in reversed(self.facts):
            m = 0
            for s, c in f[1].items():
                k = t.get(s)
                if k is not None and k * c < 0 and k % c == 0:
                    x = -(k // c)
                    if not m or x < m: m = x
            if not m: continue
            self.budget -= 1
            if self.budget < 0: return best
            r = ladd(lin, f, m)
            best = min(best, self.leval(r)[1])
            if depth > 1 and r[1] and len(r[1]) <= len(t) + 1:
                best = self._upper(r, depth - 1, best)
        return best
    def tight(self, v):
        """unsigned range of v, facts included"""
        lo, hi = self.ur(v)
        if self.facts and v.lin is not None and len(v.lin[1]) > 1:
            u = self.ulin(v)
            if u is not None:
                return max(lo, -self.upper(lscale(u, -1))), min(hi, self.upper(u))
        return lo, hi
    def prove_eq(self, a, b):
        d = ladd(a, b, -1)
        if not d[1]: return d[0] == 0
        return self.prove(d) and self.prove(lscale(d, -1))
    def add_fact(self, lin):
        """assume lin >= 0; returns False if impossible"""
        if not lin[1]:
            return lin[0] >= 0
        lo, hi = self.leval(lin)
        if hi < 0: return False
        if lo >= 0: return True
        # tighten single symbol bounds
        for s, c in lin[1].items():
            a, b = self.sbounds(s)
            # c*s >= -(rest) ; rest max = hi - c*(b if c>0 else a)
            rest = hi - (c * b if c > 0 else c * a)
            if c > 0:
                na = -(rest // c)          # s >= ceil(-rest/c)
                if na > a: a = na
            else:
                nb = rest // (-c)
                if nb < b: b = nb
            if a > b: return False
            if (a, b) != self.sbounds(s): self.sb[s] = (a, b)
        if len(lin[1]) > 1:
            for f in self.facts:
                if f[0] <= lin[0] and f[1] == lin[1]: return True
            self.facts = [f for f in self.facts if not (f[0] >= lin[0] and f[1] == lin[1])]
            self.facts.append(lin)
            if len(self.facts) > self.maxfacts: del self.facts[0]
        return True
    def rng(self, v):
        """refined interval of v"""
        lo, hi = v.lo, v.hi
        if lo == hi: return lo, hi
        lin = v.lin
        if lin is not None and v.lm == v.w and lin[1]:
            a, b = self.leval(lin)
            M = 1 << v.w
            if b - a < hi - lo or a > lo or b < hi:
                if b - a < M - 1:
                    # shift into overlap
                    k0 = -((b - lo) // M)          # smallest k with b+kM >= lo ... candidates around
                    best = None
                    for k in (k0 - 1, k0, k0 + 1):
                        x, y = a + k * M, b + k * M
                        if y < lo or x > hi: continue
                        x, y = max(x, lo), min(y, hi)
                        if best is None: best = (x, y)
                        else: best = "many"; break
                    if best == "many": pass
                    elif best is None: return 1, 0        # infeasible
                    else: lo, hi = best
        return lo, hi
    def ur(self, v):
        lo, hi = self.rng(v)
        if lo > hi: return lo, hi
        return urange2(v.w, lo, hi)
    def sr(self, v):
        lo, hi = self.rng(v)
        if lo > hi: return lo, hi
        return srange2(v.w, lo, hi)
    def trng(self, v):
        """refined interval, facts included"""
        lo, hi = self.rng(v)
        if self.facts and lo < hi and v.lin is not None and v.lm == v.w and v.lin[1]:
            r = self.rep_lin(v)
            if r is not None:
                lo = max(lo, -self.upper(lscale(r, -1))); hi = min(hi, self.upper(r))
        return lo, hi
    # exact integer linear forms
    def lin_in(self, v, lo, hi, deep=False):
        """linear form equal to v's value as the integer in [lo,hi] (a window of length 2^w), or None"""
        if v.lo == v.hi:
            M = 1 << v.w
            x = v.lo
            x = lo + ((x - lo) % M)
            return (x, {})
        if v.lin is None or v.lm != v.w: return None
        a, b = self.leval(v.lin)
        M = 1 << v.w
        k = (lo - a + M - 1) // M if a < lo else -((a - lo) // M)
        if a + k * M >= lo and b + k * M <= hi:
            return v.lin if k == 0 else (v.lin[0] + k * M, v.lin[1])
        x, y = self.rng(v)
        if lo <= x and y <= hi:
            r = self.rep_lin(v)
            if r is not None: return r
        # use facts
        L = v.lin
        for L in (v.lin, (v.lin[0] + M, v.lin[1]), (v.lin[0] - M, v.lin[1])):
            if self.facts and self.prove(ladd(L, lconst(-lo))) and self.prove(ladd(lscale(L, -1), lconst(hi))):
                return L
        return None
    def ulin(self, v): return self.lin_in(v, 0, (1 << v.w) - 1)
    def slin(self, v): return self.lin_in(v, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
    def rep_lin(self, v):
        """linear form equal to the representative in [v.lo,v.hi]"""
        if v.lo == v.hi: return (v.lo, {})
        if v.lin is None or v.lm != v.w: return None
        M = 1 << v.w
        a, b = self.leval(v.lin)
        if b - a >= M:
            if DEEP and self.facts and v.lo >= 0 and v.hi < M and self.prove(ladd(v.lin, lconst(-v.lo)), 1) \
               and self.prove(ladd(lscale(v.lin, -1), lconst(v.lo + M - 1)), 1): return v.lin
            return None
        k = round((v.lo - a) / M) if M < (1 << 60) else (v.lo - a + M // 2) // M
        for kk in (k, k - 1, k + 1):
            x, y = a + kk * M, b + kk * M
            if max(y, v.hi) - min(x, v.lo) < M:
                return (v.lin[0] + kk * M, v.lin[1])
        return None
    def getcq(self, v):
        if v.cq is not None: return v.cq
        if v.lo == v.hi: return (v.lo % Q, {})
        L = self.rep_lin(v)
        if L is None: return None
        t = {}
        for s, c in L[1].items():
            if c % Q: t[s] = c % Q
        return (L[0] % Q, t)

def cq_add(a, b, k=1):
    t = dict(a[1])
    for s, c in b[1].items():
        x = (t.get(s, 0) + k * c) % Q
        if x: t[s] = x
        else: t.pop(s, None)
    return ((a[0] + k * b[0]) % Q, t)

def cq_scale(a, k):
    k %= Q
    if k == 0: return (0, {})
    return (a[0] * k % Q, {s: c * k % Q for s, c in a[1].items()})
