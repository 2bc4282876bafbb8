"""Abstract interpreter for Solidity and Yul over canonical polynomials.

A word is an int or a polynomial modulo 2^256 over atoms; an atom is an input, a comparison (0/1), a bit field, a residue modulo an odd
constant (kept as a linear form over products of inputs) or an opaque function of canonical arguments.  Equal canonical forms are equal
values.  Loops whose condition is decided are followed; conditions that are not decided split the path and join again after an `if`."""
from .solparse import Prog, Fun

W = 1 << 256; H = 1 << 255
class Unsup(Exception): pass

# ------------------------------------------------------------------ atoms
class Atoms:
    def __init__(self): self.tab = {}; self.a = []
    def get(self, op, args, lo=0, hi=W - 1):
        k = (op, args); i = self.tab.get(k)
        if i is None:
            i = len(self.a); self.tab[k] = i; self.a.append((op, args, lo, hi))
        return i
AT = Atoms()
def op(i): return AT.a[i][0]
def isbool(i): return AT.a[i][2] == 0 and AT.a[i][3] == 1

class P:
    __slots__ = ("t", "_k")
    def __init__(self, t): self.t = t; self._k = None
    @property
    def k(self):
        if self._k is None: self._k = frozenset(self.t.items())
        return self._k
    def __eq__(self, o): return isinstance(o, P) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return show(self)
def key(v): return v if isinstance(v, int) else v.k
def sgn(c): c %= W; return c - W if c > H else c
def mk(t):
    t = {m: c for m, c in ((m, sgn(c)) for m, c in t.items()) if c}
    if not t: return 0
    if len(t) == 1 and () in t: return t[()] % W
    return P(t)
def terms(v): return v.t if isinstance(v, P) else {(): sgn(v)} if v % W else {}
def atom(i): return P({(i,): 1})
def new(o, args, lo=0, hi=W - 1): return atom(AT.get(o, args, lo, hi))
def add(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int): return (a + k * b) % W
    t = dict(terms(a))
    for m, c in terms(b).items(): t[m] = t.get(m, 0) + c * k
    return mk(t)
def mono(m1, m2):
    if not m1: return m2
    if not m2: return m1
    m = sorted(m1 + m2); out = []
    for x in m:
        if out and out[-1] == x and isbool(x): continue
        out.append(x)
    return tuple(out)
def mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b % W
    x, y = terms(a), terms(b)
    if len(x) * len(y) > 4000000: raise Unsup("product too large")
    t = {}
    for m1, c1 in x.items():
        for m2, c2 in y.items():
            m = mono(m1, m2); t[m] = t.get(m, 0) + c1 * c2
    return mk(t)
def conj_of(v):
    "factors of a conjunction kept as one atom"
    if isinstance(v, P) and len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and AT.a[m[0]][0] == "conj": return AT.a[m[0]][1]
    return None
def conj(a, b):
    return new("conj", (conj_of(a) or frozenset([key(a)])) | (conj_of(b) or frozenset([key(b)])), 0, 1)
def bitfields(v):
    "value as disjoint bit fields [(position, width, atom or None, constant)] or None"
    out = []
    for m, c in terms(v).items():
        if not m:
            if c < 0: c += W
            p = 0
            while c:
                z = (c & -c).bit_length() - 1; c >>= z; p += z
                o = (~c & (c + 1)).bit_length() - 1
                out.append((p, o, None, (1 << o) - 1)); c >>= o; p += o
            continue
        if len(m) != 1 or c < 0 and c != -H: return None
        c %= W
        if c & (c - 1): return None
        p = c.bit_length() - 1; w = AT.a[m[0]][3].bit_length()
        if p + w > 256: w = 256 - p
        out.append((p, w, m[0], None))
    out.sort(key=lambda f: f[0])
    for f, g in zip(out, out[1:]):
        if f[0] + f[1] > g[0]: return None
    return out
def bits(a, lo, w):
    "bits lo..lo+w-1 of an atom"
    o, args, l, h = AT.a[a]
    tot = h.bit_length(); w = min(w, tot - lo)
    if w <= 0: return 0
    if lo == 0 and w >= tot: return atom(a)
    if o == "bits": return new("bits", (args[0], args[1] + lo, w), 0, (1 << w) - 1)
    return new("bits", (a, lo, w), 0, (1 << w) - 1)
def field_extract(fs, lo, w):
    v = 0
    for p, n, a, c in fs:
        s, e = max(p, lo), min(p + n, lo + w)
        if s >= e: continue
        x = (c >> (s - p)) & ((1 << (e - s)) - 1) if a is None else bits(a, s - p, e - s)
        v = add(v, mul(x, 1 << (s - lo)))
    return v

# ------------------------------------------------------------------ residues
FORM = {}        # frozen form -> id
FORMS = []
def form_id(f):
    k = frozenset(f.items()); i = FORM.get(k)
    if i is None: i = len(FORMS); FORM[k] = i; FORMS.append(f)
    return i
def fadd(f, g, k, m):
    t = dict(f)
    for a, c in g.items():
        c = (t.get(a, 0) + k * c) % m
        if c: t[a] = c
        else: t.pop(a, None)
    return t
def residue(v, m, st):
    "canonical linear form modulo m of the integer v"
    out = {}
    if not isinstance(v, int):
        lo, hi = st.rng(v)
        if lo < 0 or hi >= W: return {AT.get("wrapped", v.k): 1}
    else: v = v % W; return {(): v % m} if v % m else {}
    for mo, c in v.t.items():
        if not mo: f = {(): 1}
        elif len(mo) == 1:
            o, args, l, h = AT.a[mo[0]]
            f = FORMS[args[0]] if o == "res" and args[1] == m else {mo[0]: 1}
        else: f = fprod([residue(atom(x), m, st) for x in mo], m)
        out = fadd(out, f, c, m)
    return out
def factors(f, m):
    "(constant, [factor ids]) of a form"
    if not f: return 0, []
    if len(f) == 1:
        (a, c), = f.items()
        if a == (): return c, []
        if AT.a[a][0] == "fprod": return c, list(AT.a[a][1])
        return c, [a]
    a0 = min(f, key=lambda x: (-1,) if x == () else (0, x)); c0 = f[a0]; i = pow(c0, -1, m)
    return c0, [AT.get("form", (form_id({a: c * i % m for a, c in f.items()}), m), 0, m - 1)]
def fprod(fs, m):
    k = 1; l = []
    for f in fs:
        c, x = factors(f, m); k = k * c % m; l += x
        if not c: return {}
    if not k: return {}
    if not l: return {(): k}
    if len(l) == 1:
        if AT.a[l[0]][0] == "form": return {a: c * k % m for a, c in FORMS[AT.a[l[0]][1][0]].items()}
        return {l[0]: k}
    return {AT.get("fprod", tuple(sorted(l)), 0, W - 1): k}
def from_form(f, m):
    if not f: return 0
    if len(f) == 1:
        (a, c), = f.items()
        if a == (): return c
        if c == 1 and AT.a[a][3] < m: return atom(a)
    return new("res", (form_id(f), m), 0, m - 1)

# ------------------------------------------------------------------ printing
def show(v, d=3):
    if isinstance(v, int): return str(v) if v < 1 << 64 or v > W - (1 << 64) else hex(v)
    out = []
    for m, c in list(v.t.items())[:6]: out.append("*".join(([str(c)] if c != 1 or not m else []) + [ashow(x, d) for x in m]))
    return "+".join(out) + ("+...(%d terms)" % len(v.t) if len(v.t) > 6 else "")
def ashow(i, d=3):
    o, args, lo, hi = AT.a[i]
    if d <= 0: return "#%d" % i
    if o == "in": return str(args[0])
    if o == "elt": return "%s[%d]" % (args[1], args[2])
    if o == "bits": return "%s.bits(%d,%d)" % (ashow(args[0], d - 1), args[1], args[2])
    if o in ("ge", "eq"): return "(%s%s0)" % (show(P(dict(args)), d - 1), ">=" if o == "ge" else "==")
    if o == "res": return "(%s mod %d)" % ("+".join("%s*%s" % (c, "1" if a == () else ashow(a, d - 1)) for a, c in list(FORMS[args[0]].items())[:3]) + ("+.." if len(FORMS[args[0]]) > 3 else ""), args[1])
    return "%s#%d" % (o, i)

# ------------------------------------------------------------------ memory and states
class Region:
    __slots__ = ("id", "name", "cells", "dflt", "size", "rope", "odd", "esz", "lenv", "rng")
    def __init__(self, i, name, dflt, size=None, esz=32, rng=(0, W - 1)):
        self.id = i; self.name = name; self.cells = {}; self.dflt = dflt; self.size = size; self.rope = None; self.odd = False; self.esz = esz; self.rng = rng; self.lenv = None
    def copy(self):
        r = Region(self.id, self.name, self.dflt, self.size, self.esz, self.rng); r.cells = dict(self.cells); r.rope = self.rope; r.odd = self.odd; r.lenv = self.lenv; return r

class St:
    __slots__ = ("fr", "mem", "own", "known", "b", "conds", "trace", "g")
    def __init__(self): self.g = {}; self.fr = []; self.mem = {}; self.own = set(); self.known = {}; self.b = {}; self.conds = []; self.trace = ()
    def fork(self):
        s = St(); s.fr = [dict(f) for f in self.fr]; s.mem = dict(self.mem); self.own = set(); s.known = dict(self.known); s.b = dict(self.b); s.conds = list(self.conds); s.trace = self.trace; s.g = dict(self.g)
        return s
    def w(self, rid):
        if rid not in self.own: self.mem[rid] = self.mem[rid].copy(); self.own.add(rid)
        return self.mem[rid]
    def arng(self, a):
        x = self.known.get(a)
        if x is not None: return x, x
        return self.b.get(a) or (AT.a[a][2], AT.a[a][3])
    def simp(self, v):
        if isinstance(v, int) or not self.known: return v
        ks = self.known
        if not any(x in ks for m in v.t for x in m): return v
        t = {}
        for m, c in v.t.items():
            n = []
            for x in m:
                y = ks.get(x)
                if y is None: n.append(x)
                else: c *= y
                if not c: break
            else: n = tuple(n); t[n] = t.get(n, 0) + c
        return mk(t)
    def rng(self, v):
        "bounds of the polynomial over the integers"
        if isinstance(v, int): return v, v
        v = self.simp(v)
        if isinstance(v, int): return v, v
        lo = hi = 0; rest = {}; par = {}
        def find(x):
            while par.setdefault(x, x) != x: x = par[x]
            return x
        multi = [m for m in v.t if len(m) > 1]
        for m in multi:
            r = find(m[0])
            for x in m[1:]: par[find(x)] = r
        for m in v.t:
            if len(m) == 1 and isbool(m[0]) and AT.a[m[0]][0] == "ge":
                # a comparison belongs to the value compared
                s = {x for mm, _ in AT.a[m[0]][1] for x in mm}
                if len(s) == 1 and (next(iter(s)) in par or (next(iter(s)),) in v.t): par[find(m[0])] = find(next(iter(s)))
        groups = {}
        for m, c in v.t.items():
            if not m: lo += c; hi += c; continue
            if m[0] in par: groups.setdefault(find(m[0]), []).append((m, c)); continue
            x, y = self.arng(m[0])
            if len(m) == 1:
                lo += c * (x if c > 0 else y); hi += c * (y if c > 0 else x)
        for g in groups.values():
            x, y = self.grng(g); lo += x; hi += y
        return lo, hi
    def grng(self, g):
        at = {x for m, c in g for x in m}
        big = [x for x in at if not (isbool(x) and AT.a[x][0] == "ge")]
        bo = [x for x in at if x not in big]
        if len(big) == 1:
            x = big[0]; lo, hi = self.arng(x); th = []
            for b in bo:
                p = dict(AT.a[b][1])
                if set(p) - {(), (x,)}: break
                th.append((b, p.get((x,), 0), p.get((), 0)))
            else:
                if hi - lo <= 1 << 17:
                    ky = (lo, hi, frozenset((tuple(sorted((-1, 0) if y == x else next((1, a, c) for b, a, c in th if b == y) for y in m)), c) for m, c in g))
                    r = GR.get(ky)
                    if r is None:
                        u = w = None
                        cuts = {lo, hi}
                        for b, a, c in th:
                            if a:
                                z = -c // a
                                for d in (-2, -1, 0, 1, 2):
                                    if lo <= z + d <= hi: cuts.add(z + d)
                        deg = max(sum(1 for y in m if y == x) for m, c in g)
                        pts = sorted(cuts)
                        if deg <= 2:
                            # between two thresholds a polynomial of degree two: ends and vertex
                            ex = set(pts)
                            for s, e in zip(pts, pts[1:]):
                                mid = (s + e) // 2
                                tb = {b: a * mid + c >= 0 for b, a, c in th}
                                k2 = k1 = 0
                                for m, c in g:
                                    n = sum(1 for y in m if y == x)
                                    if all(tb[y] for y in m if y != x):
                                        if n == 2: k2 += c
                                        elif n == 1: k1 += c
                                if k2:
                                    v = -k1 // (2 * k2)
                                    for d in (-1, 0, 1):
                                        if s <= v + d <= e: ex.add(v + d)
                            pts = sorted(ex)
                        else: pts = range(lo, hi + 1)
                        for v in pts:
                            tb = {b: a * v + c >= 0 for b, a, c in th}
                            s = 0
                            for m, c in g:
                                for y in m:
                                    if y == x: c *= v
                                    elif not tb[y]: c = 0; break
                                s += c
                            u = s if u is None else min(u, s); w = s if w is None else max(w, s)
                        r = GR[ky] = (u, w)
                    return r
        lo = hi = 0
        for m, c in g:
            x = y = 1
            for a in m:
                l, h = self.arng(a); x *= l; y *= h
            lo += c * (x if c > 0 else y); hi += c * (y if c > 0 else x)
        return lo, hi
    def exact(self, v):
        lo, hi = self.rng(v)
        return 0 <= lo and hi < W
    # -------------------------------------------------------- conditions
    def truth(self, v):
        "0/1 polynomial -> True, False or None"
        v = self.simp(v)
        if isinstance(v, int): return v != 0
        lo, hi = self.rng(v)
        if lo > 0: return True
        if hi == 0: return False
        return None
    def assume(self, v, truth):
        v = self.simp(v)
        if isinstance(v, int): return (v != 0) == truth
        at = sorted({x for m in v.t for x in m})
        self.conds.append((v, truth))
        if len(at) > 8 and all(isbool(x) for x in at):
            if truth and len(v.t) == 1 and () not in v.t: return all(self.learn(x, 1) for x in at)
            if truth: return self.rng(v)[1] > 0
            if all(c > 0 for c in v.t.values()) and self.exact(v):
                return () not in v.t and all(self.learn(m[0], 0) for m in v.t if len(m) == 1)
            return True
        if all(isbool(x) for x in at) and len(at) <= 8:
            ok = []
            for n in range(1 << len(at)):
                d = {x: n >> i & 1 for i, x in enumerate(at)}
                s = sum(c for m, c in v.t.items() if all(d[x] for x in m))
                if (s % W != 0) == truth: ok.append(d)
            if not ok: return False
            for x in at:
                vs = {d[x] for d in ok}
                if len(vs) == 1 and not self.learn(x, vs.pop()): return False
        return True
    def learn(self, a, b):
        self.known[a] = b; o, args = AT.a[a][:2]
        if o == "conj":
            return not b or all(self.assume(k if isinstance(k, int) else P(dict(k)), True) for k in sorted(args, key=lambda k: sorted(k) if isinstance(k, frozenset) else []))
        if o == "ge":
            p = dict(args)
            if not b: p = {m: -c for m, c in p.items()}; p[()] = p.get((), 0) - 1
            return self.bound(p)
        if o == "eq":
            p = dict(args)
            if b:
                # a single atom with a fixed value
                ms = [m for m in p if m]
                if len(ms) == 1 and len(ms[0]) == 1:
                    k = p[ms[0]]; c = -p.get((), 0)
                    if c % k: return False
                    x = ms[0][0]; l, h = self.arng(x); v = c // k
                    if not l <= v <= h: return False
                    self.b[x] = (v, v)
                    if isbool(x): return self.learn(x, v)
                    self.known[x] = v
                k0 = p.get((), 0)
                if len(ms) > 1 and all(len(m) == 1 and isbool(m[0]) and p[m] > 0 for m in ms):
                    if k0 == 0: return all(self.learn(m[0], 0) for m in ms)
                    if k0 == -sum(p[m] for m in ms): return all(self.learn(m[0], 1) for m in ms)
                if len(ms) > 1 and all(len(m) == 1 and isbool(m[0]) and p[m] < 0 for m in ms):
                    if k0 == 0: return all(self.learn(m[0], 0) for m in ms)
                    if k0 == -sum(p[m] for m in ms): return all(self.learn(m[0], 1) for m in ms)
                return self.bound(p) and self.bound({m: -c for m, c in p.items()})
            ms = [m for m in p if m]
            if len(ms) == 1 and len(ms[0]) == 1 and abs(p[ms[0]]) == 1:
                x = ms[0][0]; l, h = self.arng(x); v = -p.get((), 0) * p[ms[0]]
                if v == l: l += 1
                if v == h: h -= 1
                if l > h: return False
                self.b[x] = (l, h)
        return True
    def bound(self, p):
        "p >= 0 over the integers"
        if len(p) > 6: return self.rng(P(p))[1] >= 0
        for m, c in p.items():
            if len(m) != 1: continue
            r = {n: k for n, k in p.items() if n != m}
            hi = self.rng(P(r))[1] if any(n for n in r) else r.get((), 0)
            l, h = self.arng(m[0])
            if c > 0: l = max(l, -(hi // c))
            else: h = min(h, hi // -c)
            if l > h: return False
            if isbool(m[0]):
                if l == h and m[0] not in self.known and not self.learn(m[0], l): return False
            else: self.b[m[0]] = (l, h)
        return True
GR = {}

class Frame(dict): pass
class Ret(Exception): pass

UMASK = {"uint%d" % (8 * i): (1 << 8 * i) - 1 for i in range(1, 33)}
UMASK["uint"] = W - 1; UMASK["address"] = (1 << 160) - 1; UMASK["byte"] = 255
for _i in range(1, 33): UMASK["bytes%d" % _i] = (1 << 8 * _i) - 1

class Machine:
    def __init__(self, prog, hooks=None, contract=None):
        self.p = prog; self.hooks = hooks or {}; self.nreg = 0; self.contract = contract; self.oob = {}; self.reverts = 0; self.steps = 0; self.cv = {}; self.depth = 0
        self.on_iter = None; self.seen = set(); self.visited = set(); self.wrap = {}
    # -------------------------------------------------------- memory
    def region(self, st, name, dflt="zero", size=None, esz=32, rng=(0, W - 1), fixed=False):
        self.nreg += 1; i = self.nreg
        r = Region(i, name, dflt, size, esz, rng); st.mem[i] = r; st.own.add(i)
        return new("base", (i, name), 128, 1 << 40)
    def array(self, st, name, n, dflt="elt", rng=(0, W - 1)):
        "dynamic array in memory with n elements (int or a symbolic length)"
        p = self.region(st, name, dflt, 32 + 32 * n if isinstance(n, int) else None, 32, rng)
        r = self.reg(st, p)[0]; r.cells[0] = n; r.lenv = n
        return p
    def bytesv(self, st, name, n):
        p = self.region(st, name, "word", 32 + n if isinstance(n, int) else None, 1)
        r = self.reg(st, p)[0]; r.cells[0] = n; r.lenv = n
        return p
    def reg(self, st, v, w=True):
        "pointer -> (region, offset)"
        v = st.simp(v)
        if isinstance(v, int): return None, v
        bs = [m for m, c in v.t.items() if len(m) == 1 and AT.a[m[0]][0] == "base" and c == 1]
        if len(bs) != 1: raise Unsup("memory address %s" % show(v)[:100])
        o = add(v, P({bs[0]: 1}), -1)
        if not isinstance(o, int): raise Unsup("symbolic memory offset %s" % show(o)[:100])
        rid = AT.a[bs[0][0]][1][0]
        if o >= H: o -= W
        return (st.w(rid) if w else st.mem[rid]), o
    def check_oob(self, st, r, o, n):
        if r.size is not None: z = r.size
        else:
            l = r.lenv
            if l is None or r.dflt not in ("elt", "word", "zero"): return
            z = 32 + r.esz * max(0, st.rng(l)[0])
        if o < 0 or o + n > (z + 31) // 32 * 32: self.oob.setdefault((r.name if isinstance(r.name, str) else r.name[0], getattr(self, "line", 0)), o)
    def mload(self, st, v):
        r, o = self.reg(st, v, False)
        if r is None:
            if o == 0x40: return self.region(st, "free@%d" % self.line, "dirty", None)
            if o == 0x60: return 0
            raise Unsup("load from address %d" % o)
        x = r.cells.get(o)
        if x is not None: return x
        self.check_oob(st, r, o, 32)
        if r.odd or o % 32:
            ov = [c for c in r.cells if o - 32 < c < o + 32 and c != o and not (c == 0 and r.cells.get(0) is not None and o >= 32)]
            if ov: raise Unsup("overlapping load at %s+%d" % (r.name, o))
        return self.default(r, o)
    def default(self, r, o):
        if r.dflt == "zero": return 0
        if r.dflt == "elt": return new("elt", (r.id, r.name, (o - 32) // 32), *r.rng)
        return new("word", (r.id, r.name, o))
    def mstore(self, st, v, x):
        r, o = self.reg(st, v)
        if r is None:
            if o == 0x40: return
            raise Unsup("store to address %d" % o)
        self.check_oob(st, r, o, 32)
        if o % 32: r.odd = True
        if r.odd:
            for c in list(r.cells):
                if c != o and o - 32 < c < o + 32: raise Unsup("overlapping store at %s+%d" % (r.name, o))
        r.cells[o] = x; r.rope = None
    # -------------------------------------------------------- words
    def cmp_ge(self, st, p):
        "0/1: integer polynomial p >= 0"
        p = st.simp(p) if isinstance(p, P) else sgn(p)
        if isinstance(p, int): return int((p if p < H else p - W) >= 0)
        lo, hi = st.rng(p)
        if lo >= 0: return 1
        if hi < 0: return 0
        ms = [(m, c) for m, c in p.t.items() if m]
        if len(ms) == 1 and len(ms[0][0]) == 1 and abs(ms[0][1]) > 1:
            # k*x + c >= 0: round
            m, k = ms[0]; c = p.t.get((), 0); s = abs(k); p = P({m: k // s, **({(): c // s} if c // s else {})})
        # orientation: the smallest monomial has a positive coefficient
        m0 = min(m for m in p.t if m)
        if p.t[m0] < 0:
            t = {m: -c for m, c in p.t.items()}; t[()] = t.get((), 0) - 1
            q = P({m: c for m, c in t.items() if c}); a = AT.get("ge", frozenset(q.t.items()), 0, 1)
            return st.simp(add(1, atom(a), -1))
        return st.simp(atom(AT.get("ge", frozenset(p.t.items()), 0, 1)))
    def cmp_eq(self, st, p):
        p = st.simp(p)
        if isinstance(p, int): return int(p == 0)
        lo, hi = st.rng(p)
        if lo > 0 and hi < W or hi < 0 and lo > -W: return 0
        ms = [(m, c) for m, c in p.t.items() if m]
        if len(ms) == 1 and len(ms[0][0]) == 1 and isbool(ms[0][0][0]):
            m, k = ms[0]; c = p.t.get((), 0)
            return atom(m[0]) if (k + c) % W == 0 and c % W else add(1, atom(m[0]), -1) if c % W == 0 and k % W else 0
        m0 = min(m for m in p.t if m)
        if p.t[m0] < 0: p = P({m: -c for m, c in p.t.items()})
        if lo > -W and hi < W: return st.simp(atom(AT.get("eq", frozenset(p.t.items()), 0, 1)))
        return st.simp(atom(AT.get("eqw", frozenset(p.t.items()), 0, 1)))
    def norm(self, st, v):
        "a polynomial whose integer value is the word"
        v = st.simp(v)
        if isinstance(v, int) or st.exact(v): return v
        return new("wrap", v.k)
    def lt(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b); ia, ib = isinstance(a, int), isinstance(b, int)
        if ia and ib: return int(a < b)
        if ia and a >= H or ib and b >= H:
            # a constant in the upper half has no signed representation
            if ia and st.rng(b)[1] <= a: return 0
            if ib and st.rng(a)[1] < b: return 1
            raise Unsup("comparison with a constant above 2^255")
        return self.cmp_ge(st, add(add(b, a, -1), 1, -1))
    def boolv(self, st, v):
        v = st.simp(v)
        if isinstance(v, int): return int(v != 0)
        if all(isbool(x) for m in v.t for x in m):
            lo, hi = st.rng(v)
            if 0 <= lo and hi <= 1: return v
            at = sorted({x for m in v.t for x in m})
            if len(at) <= 6:
                vals = [sum(c for m, c in v.t.items() if all(n >> at.index(x) & 1 for x in m)) % W for n in range(1 << len(at))]
                if all(x in (0, 1) for x in vals): return v
        return add(1, self.cmp_eq(st, v), -1)
    def op2(self, st, o, a, b):
        a, b = st.simp(a), st.simp(b); ci = isinstance(a, int) and isinstance(b, int)
        if o == "add": return add(a, b)
        if o == "sub": return add(a, b, -1)
        if o == "mul": return mul(a, b)
        if o == "lt": return self.lt(st, a, b)
        if o == "gt": return self.lt(st, b, a)
        if o == "eq": return self.cmp_eq(st, add(a, b, -1))
        if o in ("slt", "sgt"):
            if ci:
                x, y = (v - W if v >= H else v for v in (a, b)); return int(x < y if o == "slt" else x > y)
            if st.rng(a)[1] < H and st.rng(b)[1] < H and st.exact(a) and st.exact(b): return self.op2(st, o[1:], a, b)
        if o == "div":
            if b == 0: return 0
            if ci: return a // b
            if b == 1: return a
            if isinstance(b, int) and b & (b - 1) == 0: return self.op2(st, "shr", b.bit_length() - 1, a)
            return new("div", (key(self.norm(st, a)), key(self.norm(st, b))), 0, st.rng(self.norm(st, a))[1] // b if isinstance(b, int) else W - 1)
        if o == "mod":
            if b == 0: return 0
            if ci: return a % b
            if isinstance(b, int):
                lo, hi = st.rng(a)
                if 0 <= lo and hi < b: return a
                if b & 1: return from_form(residue(a, b, st), b)
                if b & (b - 1) == 0: return self.op2(st, "and", b - 1, a)
        if o == "exp" and ci: return pow(a, b, W)
        if o == "shl":
            if isinstance(a, int): return mul(b, 1 << a) if a < 256 else 0
            if isinstance(b, int) and b == 0: return 0
        if o == "shr":
            if isinstance(a, int):
                if a >= 256: return 0
                if isinstance(b, int): return b >> a
                f = bitfields(b)
                if f is None and not st.exact(b): b = self.norm(st, b); f = bitfields(b)
                if f is not None: return field_extract(f, a, 256 - a)
                return field_extract(bitfields(new("val", b.k, 0, st.rng(b)[1])), a, 256 - a)
            if b == 0: return 0
        if o in ("and", "or", "xor"):
            if ci: return a & b if o == "and" else a | b if o == "or" else a ^ b
            if a == b: return 0 if o == "xor" else a
            if isinstance(b, int): a, b = b, a
            if all(isbool(x) for v in (a, b) if isinstance(v, P) for m in v.t for x in m):
                x, y = self.isb(st, a), self.isb(st, b)
                if x and y:
                    if o == "and" and (len(terms(a)) * len(terms(b)) > 32 or conj_of(a) or conj_of(b)) and a != 1 and a != 0: return conj(a, b)
                    if o == "or" and (len(terms(a)) * len(terms(b)) > 32 or conj_of(add(1, a, -1)) or conj_of(add(1, b, -1))) and a != 1 and a != 0:
                        return add(1, conj(add(1, a, -1), add(1, b, -1)), -1)
                    p = mul(a, b)
                    return p if o == "and" else add(add(a, b), p, -1) if o == "or" else add(add(a, b), p, -2)
            if isinstance(a, int):
                if a == 0: return 0 if o == "and" else b
                if o == "and":
                    f = bitfields(b)
                    if f is None: f = bitfields(new("val", self.norm(st, b).k, 0, min(W - 1, st.rng(self.norm(st, b))[1])))
                    v = 0
                    for p, w, x, c in bitfields(a): v = add(v, mul(field_extract(f, p, w), 1 << p))
                    return v
            if o in ("or", "xor"):
                f, g = bitfields(a), bitfields(b)
                if f is not None and g is not None:
                    z = sorted(f + g, key=lambda t: t[0])
                    if all(u[0] + u[1] <= v[0] for u, v in zip(z, z[1:])): return add(a, b)
            ka, kb = sorted((key(self.norm(st, a)), key(self.norm(st, b))), key=repr)
            hi = st.rng(self.norm(st, a))[1] if o == "and" else W - 1
            return new(o, (ka, kb), 0, hi)
        if o == "byte":
            if isinstance(a, int): return self.op2(st, "and", 255, self.op2(st, "shr", 8 * (31 - a), b)) if a < 32 else 0
        if o == "signextend": raise Unsup("signextend")
        ka, kb = key(self.norm(st, a)), key(self.norm(st, b))
        return new(o, (ka, kb))
    def isb(self, st, v):
        lo, hi = st.rng(v)
        return 0 <= lo and hi <= 1 or self.boolv(st, v) is v
    def modop(self, st, o, a, b, m):
        m = st.simp(m)
        if not isinstance(m, int): raise Unsup("symbolic modulus")
        if m == 0: return 0
        a, b = self.norm(st, a), self.norm(st, b)
        if not m & 1:
            if isinstance(a, int) and isinstance(b, int): return (a + b) % m if o == "addmod" else a * b % m
            raise Unsup("even modulus")
        f, g = residue(a, m, st), residue(b, m, st)
        return from_form(fadd(f, g, 1, m) if o == "addmod" else fprod([f, g], m), m)
    # -------------------------------------------------------- statements
    def block(self, ss, st, yul):
        cur = [st]; out = []
        for s in ss:
            nx = []
            for x in cur:
                for y, k, v in self.stmt(s, x, yul):
                    if k == "next": nx.append(y)
                    else: out.append((y, k, v))
            cur = nx
            if len(cur) > 4000: raise Unsup("too many paths")
        return [(x, "next", None) for x in cur] + out
    def stmt(self, s, st, yul):
        self.steps += 1
        if self.steps > 6000000: raise Unsup("too many steps")
        self.line = s[1]
        return getattr(self, "s_" + s[0])(s, st, yul)
    def scope(self, ss, st, yul):
        names = set(st.fr[-1])
        r = self.block(ss, st, yul)
        for x, k, v in r:
            f = x.fr[-1]
            for n in [n for n in f if n not in names]: del f[n]
        return r
    def s_block(self, s, st, yul): return self.scope(s[2], st, yul)
    def s_asm(self, s, st, yul): return self.scope(s[2], st, True)
    def s_revert(self, s, st, yul): self.reverts += 1; return [(st, "revert", None)]
    def s_break(self, s, st, yul): return [(st, "break", None)]
    def s_continue(self, s, st, yul): return [(st, "continue", None)]
    def s_leave(self, s, st, yul): raise Unsup("leave")
    def s_expr(self, s, st, yul):
        return [(x, "next", None) if k is None else (x, k, None) for x, v, t, k in self.ev(s[2], st, yul)]
    def s_ylet(self, s, st, yul):
        if s[3] is None:
            for n in s[2]: st.fr[-1][n] = (0, "uint256")
            return [(st, "next", None)]
        out = []
        for x, v, t, k in self.ev(s[3], st, True):
            if k: out.append((x, k, None)); continue
            if len(s[2]) != 1: raise Unsup("several values")
            x.fr[-1][s[2][0]] = (v, "uint256"); out.append((x, "next", None))
        return out
    def s_yset(self, s, st, yul):
        out = []
        for x, v, t, k in self.ev(s[3], st, True):
            if k: out.append((x, k, None)); continue
            n = s[2][0]
            if n not in x.fr[-1]: raise Unsup("assignment to %s" % n)
            x.fr[-1][n] = (v, x.fr[-1][n][1]); out.append((x, "next", None))
        return out
    def zero(self, st, t, name):
        if isinstance(t, tuple):
            if t[0] == "dyn": return self.array(st, name, 0, "zero")
            n = self.const(t[2]); return self.region(st, name, "zero", 32 * n)
        if t in ("bytes", "string"): 
            p = self.region(st, name, "zero", 32, 1); self.reg(st, p)[0].cells[0] = 0; return p
        if t in self.p.structs:
            p = self.region(st, name, "zero", 32 * len(self.p.structs[t])); r = self.reg(st, p)[0]
            for i, (ft, fn) in enumerate(self.p.structs[t]):
                z = self.zero(st, ft, name + "." + fn)
                r.cells[32 * i] = z
            return p
        return 0
    def s_decl(self, s, st, yul):
        out = []
        if s[3] is None:
            for t, n in s[2]: st.fr[-1][n] = (self.zero(st, t, n), t)
            return [(st, "next", None)]
        for x, v, t, k in self.ev(s[3], st, False):
            if k: out.append((x, k, None)); continue
            vs = list(zip(v, t)) if isinstance(v, tuple) else [(v, t)]
            if len(vs) != len(s[2]): raise Unsup("values of a declaration")
            for d, (w, wt) in zip(s[2], vs):
                if d is None: continue
                x.fr[-1][d[1]] = (self.lits(x, w, d[0]), d[0])
            out.append((x, "next", None))
        return out
    def lits(self, st, v, t):
        "array literal given a place in memory"
        if isinstance(v, list):
            p = self.region(st, "literal@%d" % self.line, "zero", 32 * len(v)); r = self.reg(st, p)[0]
            for i, x in enumerate(v): r.cells[32 * i] = x
            return p
        return v
    def s_return(self, s, st, yul):
        if s[2] is None: return [(st, "return", None)]
        return [(x, "return", (v, t)) if not k else (x, k, None) for x, v, t, k in self.ev(s[2], st, False)]
    def split(self, st, v):
        "-> [(state, truth)]"
        d = st.truth(v)
        if d is not None: return [(st, d)]
        a, b = st.fork(), st
        out = []
        if a.assume(v, True): out.append((a, True))
        if b.assume(v, False): out.append((b, False))
        return out
    def s_if(self, s, st, yul):
        out = []
        for x, v, t, k in self.ev(s[2], st, yul):
            if k: out.append((x, k, None)); continue
            c = self.boolv(x, v); d = x.truth(c)
            if d is not None: out += self.scope(s[3] if d else s[4], x, yul); continue
            kn, b, cs = dict(x.known), dict(x.b), list(x.conds)
            r = {True: [], False: []}
            for y, d in self.split(x, c): r[d] += self.scope(s[3] if d else s[4], y, yul)
            n = {d: [y for y, k, v in r[d] if k == "next"] for d in r}
            out += [z for d in r for z in r[d] if z[1] not in ("next", "revert")]
            self.reverts += sum(1 for d in r for z in r[d] if z[1] == "revert")
            if len(n[True]) == 1 and len(n[False]) == 1 and not any(z[1] in ("return", "break", "continue") for d in r for z in r[d]):
                y = self.join(n[True][0], n[False][0], c, kn, b, cs) if not any(z[1] == "revert" for d in r for z in r[d]) else None
                if y is not None: out.append((y, "next", None)); continue
            for d in r: out += [(y, "next", None) for y in n[d]]
        return out
    def join(self, a, b, c, kn, bd, cs):
        y = a.fork(); y.known = kn; y.b = bd; y.conds = cs
        def ite(p, q):
            if key(p) == key(q): return p
            for v in (p, q):
                if isinstance(v, P) and any(AT.a[x][0] == "base" for m in v.t for x in m): return None
            return add(mul(c, p), mul(add(1, c, -1), q))
        for f, g in zip(y.fr, b.fr):
            for n in f:
                if n not in g: return None
                u, v = f[n][0], g[n][0]
                if isinstance(u, (tuple, list)) or isinstance(v, (tuple, list)):
                    if u != v: return None
                    continue
                w = ite(u, v)
                if w is None: return None
                f[n] = (w, f[n][1])
        for rid in set(a.mem) | set(b.mem):
            r, s = a.mem.get(rid), b.mem.get(rid)
            if r is None: y.mem[rid] = s; continue
            if s is None or r is s: continue
            z = y.w(rid)
            for o in set(r.cells) | set(s.cells):
                p = r.cells.get(o); q = s.cells.get(o)
                if p is None: p = self.default(r, o)
                if q is None: q = self.default(s, o)
                w = ite(p, q)
                if w is None: return None
                z.cells[o] = w
            z.odd = r.odd or s.odd
            if r.rope != s.rope: z.rope = None
        return y
    def s_loop(self, s, st, yul):
        out = []; names = set(st.fr[-1]); forks = 0
        heads = []
        for x, k, v in self.block(s[2], st, yul):
            if k == "next": heads.append(x)
            else: out.append((x, k, v))
        it = 0
        while heads:
            it += 1; nx = []
            for x in heads:
                for y, v, t, k in (self.ev(s[3], x, yul) if s[3] is not None else [(x, 1, "bool", None)]):
                    if k: out.append((y, k, None)); continue
                    c = self.boolv(y, v)
                    if self.on_iter: self.on_iter(self, y, s)
                    br = self.split(y, c)
                    if len(br) > 1:
                        forks += 1
                        if forks > 64: raise Unsup("loop at line %d: its condition depends on data" % s[1])
                    for z, d in br:
                        if not d: out.append((z, "next", None)); continue
                        for w, k2, v2 in self.scope(s[5], z, yul):
                            if k2 == "break": out.append((w, "next", None))
                            elif k2 in ("next", "continue"):
                                for u, k3, v3 in self.block(s[4], w, yul):
                                    if k3 == "next": nx.append(u)
                                    else: out.append((u, k3, v3))
                            elif k2 == "revert": self.reverts += 1
                            else: out.append((w, k2, v2))
            heads = nx
            if len(heads) > 600 or it > 100000: raise Unsup("loop at line %d" % s[1])
        for x, k, v in out:
            f = x.fr[-1]
            for n in [n for n in f if n not in names]: del f[n]
        return out
    # -------------------------------------------------------- expressions: [(state, value, type, kind)]
    def const(self, e):
        r = self.ev(e, St0(), False)
        v = r[0][1]
        if not isinstance(v, int): raise Unsup("constant expected")
        return v
    def lookup(self, st, n):
        if st.fr and n in st.fr[-1]: return st.fr[-1][n]
        if n in self.cv: return self.cv[n]
        c = None
        if self.contract and n in self.p.contracts[self.contract]["vars"]: c = self.p.contracts[self.contract]["vars"][n]
        elif n in self.p.consts: c = self.p.consts[n][0][1]
        if c is None: return None
        if c[1] is None: raise Unsup("storage variable %s" % n)
        r = self.ev(c[1], St0(), False)
        self.cv[n] = (r[0][1], c[0]); return self.cv[n]
    def ev(self, e, st, yul):
        return getattr(self, "e_" + e[0])(e, st, yul)
    def evs(self, es, st, yul):
        cur = [(st, [], [], None)]
        for e in es:
            nx = []
            for x, vs, ts, k in cur:
                if k: nx.append((x, vs, ts, k)); continue
                for y, v, t, k2 in self.ev(e, x, yul): nx.append((y, vs + [v], ts + [t], k2))
            cur = nx
        return cur
    def e_num(self, e, st, yul): return [(st, e[2] % W, "lit", None)]
    def e_bool(self, e, st, yul): return [(st, int(e[2]), "bool", None)]
    def e_str(self, e, st, yul): return [(st, ("str", e[2]), "string", None)]
    def e_bytes(self, e, st, yul):
        n = len(e[2]); p = self.region(st, "literal@%d" % e[1], "zero", 32 + n, 1); r = self.reg(st, p)[0]; r.cells[0] = n
        for i in range(0, n, 32): r.cells[32 + i] = int.from_bytes(e[2][i:i + 32].ljust(32, b"\0"), "big")
        return [(st, p, "bytes", None)]
    def e_name(self, e, st, yul):
        n = e[2]
        if yul and n.endswith((".offset", ".length", ".slot")):
            b, f = n.rsplit(".", 1); x = self.lookup(st, b)
            if x is None or f == "slot": raise Unsup(n)
            if f == "length": return [(st, self.mload(st, x[0]), "uint256", None)]
            return [(st, new("cdoff", key(x[0]), 0, 1 << 40), "uint256", None)]
        x = self.lookup(st, n)
        if x is None: raise Unsup("name %s" % n)
        return [(st, st.simp(x[0]) if isinstance(x[0], P) else x[0], x[1], None)]
    def e_tuple(self, e, st, yul):
        return [(x, tuple(v), tuple(t), k) for x, v, t, k in self.evs(e[2], st, yul)]
    def e_list(self, e, st, yul):
        return [(x, list(v), ("fix", t[0], ("num", 0, len(v))), k) for x, v, t, k in self.evs(e[2], st, yul)]
    def e_cond(self, e, st, yul):
        out = []
        for x, v, t, k in self.ev(e[2], st, yul):
            if k: out.append((x, v, t, k)); continue
            c = self.boolv(x, v); d = x.truth(c)
            if d is not None: out += self.ev(e[3] if d else e[4], x, yul); continue
            a, b = self.ev(e[3], x, yul), self.ev(e[4], x, yul)
            if len(a) == 1 and len(b) == 1 and a[0][0] is x and b[0][0] is x: out.append((x, add(mul(c, a[0][1]), mul(add(1, c, -1), b[0][1])), a[0][2], None)); continue
            for y, d in self.split(x, c): out += self.ev(e[3] if d else e[4], y, yul)
        return out
    def mask(self, t): return UMASK.get(t, W - 1) if isinstance(t, str) else W - 1
    def wide(self, a, b):
        if a == "lit": return b if b != "lit" else "uint256"
        if b == "lit": return a
        return a if self.mask(a) >= self.mask(b) else b
    def e_bin(self, e, st, yul):
        o = e[2]; out = []
        if o in ("&&", "||"):
            for x, v, t, k in self.ev(e[3], st, yul):
                if k: out.append((x, v, t, k)); continue
                c = self.boolv(x, v); d = x.truth(c)
                if d is not None and d == (o == "||"): out.append((x, int(d), "bool", None)); continue
                if d is not None: out += [(y, self.boolv(y, w) if not k2 else w, "bool", k2) for y, w, t2, k2 in self.ev(e[4], x, yul)]; continue
                r = self.ev(e[4], x.fork(), yul)
                if len(r) == 1 and not r[0][3]:
                    w = self.boolv(x, r[0][1]); p = mul(c, w)
                    out.append((x, p if o == "&&" else add(add(c, w), p, -1), "bool", None)); continue
                for y, d in self.split(x, c):
                    if d == (o == "||"): out.append((y, int(d), "bool", None))
                    else: out += [(z, self.boolv(z, w) if not k2 else w, "bool", k2) for z, w, t2, k2 in self.ev(e[4], y, yul)]
            return out
        for x, (a, b), (ta, tb), k in [(x, tuple(v) if len(v) == 2 else (v[0], 0), tuple(t) if len(t) == 2 else (t[0], "lit"), k) for x, v, t, k in self.evs([e[3], e[4]], st, yul)]:
            if k: out.append((x, 0, "bool", k)); continue
            v, t = self.binop(x, o, a, b, ta, tb)
            out.append((x, v, t, None))
        return out
    def binop(self, st, o, a, b, ta, tb):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if o in ("==", "!="): raise Unsup("comparison of values that are not words")
        if o in ("<", ">", "<=", ">="):
            if o == "<": return self.lt(st, a, b), "bool"
            if o == ">": return self.lt(st, b, a), "bool"
            if o == "<=": return add(1, self.lt(st, b, a), -1), "bool"
            return add(1, self.lt(st, a, b), -1), "bool"
        if o == "==": return self.op2(st, "eq", a, b), "bool"
        if o == "!=": return add(1, self.op2(st, "eq", a, b), -1), "bool"
        t = self.wide(ta, tb) if o not in ("<<", ">>", "**") else (ta if ta != "lit" else "uint256")
        m = self.mask(t)
        if o in ("+", "-", "*", "**"):
            v = self.op2(st, {"+": "add", "-": "sub", "*": "mul", "**": "exp"}[o], a, b)
            # narrow types wrap or revert: only values that fit are followed, otherwise the low bits
            if m != W - 1:
                lo, hi = st.rng(v)
                if lo < 0 or hi > m: v = self.op2(st, "and", m, v)
            return v, t
        if o == "<<":
            v = self.op2(st, "shl", b, a)
            return (v if m == W - 1 else self.op2(st, "and", m, v)), t
        return self.op2(st, {"/": "div", "%": "mod", "&": "and", "|": "or", "^": "xor", ">>": "shr"}[o], *((b, a) if o == ">>" else (a, b))), t
    def e_un(self, e, st, yul):
        if e[2] in ("++", "--"): return self.incdec(e[3], e[2], st, True)
        out = []
        for x, v, t, k in self.ev(e[3], st, yul):
            if k: out.append((x, v, t, k)); continue
            if e[2] == "!": v = add(1, self.boolv(x, v), -1)
            elif e[2] == "~": v = add(self.mask(t), v, -1)
            else: v = add(0, v, -1)
            out.append((x, v, t, None))
        return out
    def e_post(self, e, st, yul): return self.incdec(e[3], e[2], st, False)
    def incdec(self, tgt, o, st, pre):
        out = []
        for x, v, t, k in self.ev(tgt, st, False):
            if k: out.append((x, v, t, k)); continue
            w, _ = self.binop(x, o[0], v, 1, t, "lit")
            for y, k2 in self.store(tgt, w, t, x): out.append((y, w if pre else v, t, k2))
        return out
    def e_assign(self, e, st, yul):
        out = []
        if e[2]:
            for x, (a, b), (ta, tb), k in [(x, tuple(v) if len(v) == 2 else (v[0], 0), tuple(t) if len(t) == 2 else (t[0], "lit"), k) for x, v, t, k in self.evs([e[3], e[4]], st, yul)]:
                if k: out.append((x, 0, "bool", k)); continue
                v, _ = self.binop(x, e[2], a, b, ta, tb)
                if self.mask(ta) != W - 1 and x.rng(v)[1] > self.mask(ta): v = self.op2(x, "and", self.mask(ta), v)
                for y, k2 in self.store(e[3], v, ta, x): out.append((y, v, ta, k2))
            return out
        for x, v, t, k in self.ev(e[4], st, yul):
            if k: out.append((x, v, t, k)); continue
            if e[3][0] == "tuple":
                cur = [(x, None)]
                for tg, w, wt in zip(e[3][2], v, t):
                    if tg is None: continue
                    cur = [(z, k2 or k3) for y, k2 in cur for z, k3 in (self.store(tg, w, wt, y) if not k2 else [(y, k2)])]
                out += [(y, v, t, k2) for y, k2 in cur]
                continue
            for y, k2 in self.store(e[3], v, t, x): out.append((y, v, t, k2))
        return out
    def store(self, tg, v, t, st):
        "-> [(state, kind)]"
        if tg[0] == "name":
            n = tg[2]
            if n not in st.fr[-1]: raise Unsup("assignment to %s" % n)
            st.fr[-1][n] = (self.lits(st, v, t), st.fr[-1][n][1]); return [(st, None)]
        if tg[0] == "member":
            out = []
            for x, b, bt, k in self.ev(tg[2], st, False):
                if k: out.append((x, k)); continue
                if bt not in self.p.structs: raise Unsup("member assignment")
                i = [f for _, f in self.p.structs[bt]].index(tg[3])
                self.mstore(x, add(b, 32 * i), self.lits(x, v, t)); out.append((x, None))
            return out
        if tg[0] == "index":
            out = []
            for x, vs, ts, k in self.evs([tg[2], tg[3]], st, False):
                if k: out.append((x, k)); continue
                for y, a, k2 in self.place(x, vs[0], ts[0], vs[1]):
                    if k2: out.append((y, k2)); continue
                    if ts[0] in ("bytes", "string"): self.putbyte(y, vs[0], vs[1], v)
                    else: self.mstore(y, a, v)
                    out.append((y, None))
            return out
        raise Unsup("assignment target")
    def putbyte(self, st, p, i, v):
        r, o = self.reg(st, add(add(p, 32), i))
        w = o // 32 * 32; b = o - w
        old = r.cells.get(w)
        if old is None: old = self.default(r, w)
        m = 255 << 8 * (31 - b)
        keep = self.op2(st, "and", W - 1 - m, old)
        r.cells[w] = self.op2(st, "or", keep, self.op2(st, "shl", 8 * (31 - b), v)); r.rope = None
    def place(self, st, p, t, i):
        "address of an element after the bounds check -> [(state, address, kind)]"
        if isinstance(t, tuple) and t[0] == "dyn" or t in ("bytes", "string"): n = self.mload(st, p); base = 32
        elif isinstance(t, tuple): n = self.const(t[2]); base = 0
        else: raise Unsup("index of %s" % (t,))
        out = []
        for x, ok in self.split(st, self.lt(st, i, n)):
            if not ok: self.reverts += 1; continue
            out.append((x, add(add(p, base), i if t in ("bytes", "string") else mul(i, 32)), None))
        return out
    def elt(self, t):
        return t[1] if isinstance(t, tuple) else "bytes1"
    def e_index(self, e, st, yul):
        out = []
        for x, vs, ts, k in self.evs([e[2], e[3]], st, yul):
            if k: out.append((x, 0, "bool", k)); continue
            if isinstance(vs[0], list):
                if not isinstance(vs[1], int): raise Unsup("symbolic index")
                out.append((x, vs[0][vs[1]], ts[0][1], None)); continue
            for y, a, k2 in self.place(x, vs[0], ts[0], vs[1]):
                if ts[0] in ("bytes", "string"):
                    r, o = self.reg(y, a, False); w = o // 32 * 32
                    v = r.cells.get(w)
                    if v is None: v = self.default(r, w)
                    out.append((y, self.op2(y, "byte", o - w, v), "bytes1", k2))
                else: out.append((y, self.mload(y, a), self.elt(ts[0]), k2))
        return out
    def e_slice(self, e, st, yul): raise Unsup("slice")
    def e_typ(self, e, st, yul): return [(st, ("type", ("dyn", e[2][2])), "type", None)]
    def e_member(self, e, st, yul):
        if e[2][0] == "name" and e[2][2] in ("abi", "block", "msg", "tx", "type", "this"): raise Unsup("member %s.%s" % (e[2][2], e[3]))
        if e[3] == "selector": return [(st, new("in", ("selector",), 1, W - 1), "bytes4", None)]
        out = []
        for x, v, t, k in self.ev(e[2], st, yul):
            if k: out.append((x, v, t, k)); continue
            if e[3] == "length":
                if isinstance(t, tuple) and t[0] == "fix": out.append((x, self.const(t[2]), "uint256", None))
                else: out.append((x, self.mload(x, v), "uint256", None))
            elif t in self.p.structs:
                fs = self.p.structs[t]; i = [f for _, f in fs].index(e[3])
                out.append((x, self.mload(x, add(v, 32 * i)), fs[i][0], None))
            else: raise Unsup("member %s" % e[3])
        return out
    def e_new(self, e, st, yul):
        out = []
        for x, vs, ts, k in self.evs(e[3], st, yul):
            if k: out.append((x, 0, "bool", k)); continue
            n = vs[0]; t = e[2]
            if t in ("bytes", "string"):
                p = self.region(x, "bytes@%d" % e[1], "zero", 32 + n if isinstance(n, int) else None, 1); self.reg(x, p)[0].cells[0] = n
            else: p = self.array(x, "%s@%d" % ("new", e[1]), n, "zero")
            out.append((x, p, t, None))
        return out
    # -------------------------------------------------------- calls
    def e_call(self, e, st, yul):
        f = e[2]
        if f[0] == "name" and (f[2] in UMASK or f[2] in ("payable", "string", "bytes", "bool")) or f[0] == "typ" or (f[0] == "name" and f[2] in ("int256", "int")):
            out = []
            for x, vs, ts, k in self.evs(e[3], st, yul):
                if k: out.append((x, 0, "bool", k)); continue
                out.append((x, self.cast(x, vs[0], ts[0], f[2] if f[0] == "name" else f), f[2], None))
            return out
        if f[0] == "name":
            n = f[2]
            if n in ("require", "assert"):
                out = []
                for x, v, t, k in self.ev(e[3][0], st, yul):
                    if k: out.append((x, v, t, k)); continue
                    for y, d in self.split(x, self.boolv(x, v)):
                        if d: out.append((y, 0, "void", None))
                        else: self.reverts += 1
                return out
            if n == "keccak256" and n not in self.hooks:
                out = []
                for x, vs, ts, k in self.evs(e[3], st, yul):
                    out.append((x, new("keccak", self.contents(x, vs[0])), "bytes32", k) if not k else (x, 0, "bool", k))
                return out
            if n in ("addmod", "mulmod") and self.resolve(n, 3) is None:
                r = []
                for x, vs, ts, k in self.evs(e[3], st, yul): r.append((x, 0, "bool", k) if k else (x, self.modop(x, n, *vs), "uint256", None))
                return r
            if n in self.p.contracts or n in ("ICreate2",):
                return [(x, ("contract", n), n, k) for x, vs, ts, k in self.evs(e[3], st, yul)]
            if n in self.p.structs:
                out = []
                for x, vs, ts, k in self.evs(e[3], st, yul):
                    p = self.region(x, n, "zero", 32 * len(vs)); r = self.reg(x, p)[0]
                    for i, v in enumerate(vs): r.cells[32 * i] = v
                    out.append((x, p, n, k))
                return out
            g = self.resolve(n, len(e[3]))
            if g is None and n not in self.hooks: raise Unsup("call of %s" % n)
            return self.call_all(n, g, e[3], st, yul)
        if f[0] == "member":
            b = f[2]
            if b[0] == "name" and b[2] == "this":
                return self.call_all("this." + f[3], self.resolve(f[3], len(e[3])), e[3], st, yul)
            if b[0] == "name" and b[2] == "abi":
                return getattr(self, "abi_" + f[3], self.abi_other)(e, st, yul)
            n = (b[2] if b[0] == "name" else "?") + "." + f[3]
            h = self.hooks.get(n)
            if h:
                out = []
                for x, vs, ts, k in self.evs(e[3], st, yul):
                    if k: out.append((x, 0, "bool", k)); continue
                    out += [(y, v, t, None) for y, v, t in h(self, x, vs, ts)]
                return out
            raise Unsup("call of %s" % n)
        raise Unsup("call")
    def abi_other(self, e, st, yul): raise Unsup("abi." + e[2][3])
    def abi_encodePacked(self, e, st, yul):
        out = []
        for x, vs, ts, k in self.evs(e[3], st, yul):
            if k: out.append((x, 0, "bool", k)); continue
            rope = []; n = 0
            for v, t in zip(vs, ts):
                if isinstance(t, str) and t in UMASK: w = (UMASK[t].bit_length()) // 8; rope.append(("w", key(v), w)); n = add(n, w)
                elif isinstance(t, tuple):
                    l = self.mload(x, v) if t[0] == "dyn" else self.const(t[2]); base = 32 if t[0] == "dyn" else 0
                    if not isinstance(l, int): raise Unsup("packing an array of unknown length")
                    for i in range(l): rope.append(("w", key(self.mload(x, add(v, base + 32 * i))), 32))
                    n = add(n, 32 * l)
                elif t == "bytes": rope += list(self.contents(x, v)); n = add(n, self.mload(x, v))
                else: raise Unsup("packing %s" % (t,))
            p = self.region(x, "packed@%d" % e[1], "word", None, 1); r = self.reg(x, p)[0]; r.cells[0] = n; r.rope = tuple(rope)
            if isinstance(n, int): r.size = 32 + n
            if all(isinstance(z[2], int) for z in rope):
                # words of the buffer, where the pieces line up
                o = 32
                for z in rope:
                    if z[0] == "w" and z[2] == 32 and o % 32 == 0: r.cells[o] = z[1] if isinstance(z[1], int) else P(dict(z[1]))
                    o += z[2]
            out.append((x, p, "bytes", None))
        return out
    def abi_encode(self, e, st, yul):
        out = []
        for x, vs, ts, k in self.evs(e[3], st, yul):
            p = self.region(x, "encoded@%d" % e[1], "word", None, 1); self.reg(x, p)[0].cells[0] = new("in", ("enclen", e[1]), 0, 1 << 40)
            out.append((x, p, "bytes", k))
        return out
    def abi_decode(self, e, st, yul):
        out = []
        for x, v, t, k in self.ev(e[3][0], st, yul):
            if k: out.append((x, v, t, k)); continue
            ty = e[3][1]
            ty = ty[2] if ty[0] == "tuple" else [ty]
            vs = []; tt = []
            for z in ty:
                if z[0] == "typ": 
                    n = new("declen", key(v), 0, 1 << 40); vs.append(self.array(x, "decoded", n)); tt.append(("dyn", z[2][2]))
                    x.trace = x.trace + (("decoded", self.source(x, v), vs[-1]),)
                elif z[0] == "name" and z[2] == "bytes": vs.append(self.bytesv(x, "decoded", new("declen", key(v), 0, 1 << 40))); tt.append("bytes")
                else: vs.append(new("dec", (key(v), len(vs)))); tt.append(z[2])
            out.append((x, vs[0] if len(vs) == 1 else tuple(vs), tt[0] if len(vs) == 1 else tuple(tt), None))
        return out
    def source(self, st, p):
        r, o = self.reg(st, p, False)
        return r.name if o == 0 and set(r.cells) <= {0} else None
    def contents(self, st, p):
        "bytes of a byte string as a canonical rope"
        r, o = self.reg(st, p, False)
        if o == 0 and r.rope is not None: return r.rope
        n = self.mload(st, p)
        if r.dflt == "word" and o == 0 and set(r.cells) <= {0}: return (("b", r.name, key(n)),)
        if isinstance(n, int):
            out = []; i = 0
            while i < n:
                w = min(32, n - i); v = self.mload(st, add(p, 32 + i))
                if w < 32: v = self.op2(st, "shr", 8 * (32 - w), v)
                out.append(("w", key(v), w)); i += w
            return tuple(out)
        raise Unsup("contents of a byte string of unknown length")
    def cast(self, st, v, t, to):
        if not isinstance(to, str): return v
        if to in ("bytes", "string", "payable", "bool", "int256", "int"): return v
        m = UMASK[to]
        if isinstance(v, tuple) and v[0] == "contract": return new("in", (v[1],), 0, m)
        if isinstance(t, str) and t.startswith("bytes") and to.startswith("bytes") and t != to:
            raise Unsup("conversion between byte strings of different width")
        lo, hi = st.rng(v)
        if 0 <= lo and hi <= m: return v
        return self.op2(st, "and", m, v)
    def resolve(self, n, k):
        if self.contract:
            for g in self.p.contracts[self.contract]["funs"]:
                if g.name == n and len(g.params) == k: return g
        for g in self.p.funs.get(n, ()):
            if len(g.params) == k: return g
        return None
    def call_all(self, n, g, es, st, yul):
        out = []
        for x, vs, ts, k in self.evs(es, st, yul):
            if k: out.append((x, 0, "bool", k)); continue
            if n in self.hooks: out += [(y, v, t, None) for y, v, t in self.hooks[n](self, x, vs, ts)]; continue
            if g is None: raise Unsup("call of %s" % n)
            out += self.call(g, vs, x)
        return out
    def call(self, g, vs, st):
        if self.depth > 20: raise Unsup("recursion")
        if g.body is None: raise Unsup("function %s has no body" % g.name)
        self.visited.add(g.where); line = getattr(self, "line", 0)
        f = {}
        for (t, loc, n), v in zip(g.params, vs):
            if n: f[n] = (self.lits(st, v, t), t)
        for i, (t, loc, n) in enumerate(g.rets): f[n or "%%ret%d" % i] = (self.zero(st, t, n or "ret"), t)
        st.fr.append(f); self.depth += 1; out = []
        for x, k, v in self.block(g.body, st, False):
            if k == "revert": self.reverts += 1; continue
            fr = x.fr[-1]
            if k == "return" and v is not None: val, ty = v[0], v[1]
            else: val = tuple(fr[n or "%%ret%d" % i][0] for i, (t, l, n) in enumerate(g.rets)); val = val[0] if len(val) == 1 else val
            ty = tuple(t for t, l, n in g.rets); ty = ty[0] if len(ty) == 1 else ty
            x.fr.pop(); out.append((x, self.lits(x, val, ty), ty, None))
        self.depth -= 1; self.line = line
        return out
    def e_ycall(self, e, st, yul):
        n = e[2]; out = []
        for x, vs, ts, k in [(x, v[::-1], t, k) for x, v, t, k in self.evs(e[3][::-1], st, True)]:
            if k: out.append((x, 0, "bool", k)); continue
            self.line = e[1]
            if n in self.hooks: out += [(y, v, t, None) for y, v, t in self.hooks[n](self, x, vs, ts)]; continue
            if n == "mload": v = self.mload(x, vs[0])
            elif n == "mstore": self.mstore(x, vs[0], vs[1]); v = 0
            elif n in ("addmod", "mulmod"): v = self.modop(x, n, *vs)
            elif n == "iszero": v = add(1, self.boolv(x, vs[0]), -1)
            elif n == "not": v = add(W - 1, vs[0], -1)
            elif n == "pop": v = 0
            elif n in ("revert", "invalid"): self.reverts += 1; out.append((x, 0, "void", "revert")); continue
            elif n == "calldataload": v = new("calldata", key(self.norm(x, vs[0])))
            elif n == "keccak256":
                r, o = self.reg(x, vs[0], False)
                if not isinstance(vs[1], int): raise Unsup("hash of unknown length")
                rope = []; i = 0
                while i < vs[1]:
                    w = min(32, vs[1] - i); q = self.mload(x, add(vs[0], i))
                    if w < 32: q = self.op2(x, "shr", 8 * (32 - w), q)
                    rope.append(("w", key(q), w)); i += w
                v = new("keccak", tuple(rope))
            elif len(vs) == 2 and n in ("add", "sub", "mul", "div", "mod", "lt", "gt", "eq", "slt", "sgt", "and", "or", "xor", "shl", "shr", "exp", "byte"): v = self.op2(x, n, *vs)
            else: raise Unsup("Yul function %s" % n)
            out.append((x, v, "uint256", None))
        return out

def St0():
    s = St(); s.fr.append({}); return s
