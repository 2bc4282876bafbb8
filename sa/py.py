"""Abstract interpreter for the Python reference: symbolic integers as linear forms over named terms, sequences as
ropes of source slices, loops by inferred affine relations, inequalities and element-wise summaries.

Nothing of the analysed program is executed: modules are parsed with `ast`, library calls are replaced by hooks,
unknown calls become opaque terms.  A loop state is generalised until it is inductive, so conclusions hold for any
number of iterations and any input length."""
import ast, os
from fractions import Fraction
from .values import Sym, ladd, lscale, lconst, leq, lkey, lsubst
from .state import State

BIG = 1 << 62

class Unsup(Exception): pass

# ------------------------------------------------------------------ terms
DEF = {}        # Sym -> (op, args)
TAB = {}        # key -> Sym
def akey(a):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict): return ("L",) + lkey(a)
    if isinstance(a, (V, Src)): return a.key()
    if isinstance(a, tuple): return ("t",) + tuple(akey(x) for x in a)
    return a
def term(op, args, lo=-BIG, hi=BIG):
    k = (op, tuple(akey(a) for a in args))
    s = TAB.get(k)
    if s is None:
        s = Sym(op, lo, hi); TAB[k] = s; DEF[s] = (op, tuple(args))
    return s
def lsym(s): return (0, {s: 1})
def islin(a): return isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict)

class Src:
    """an array of unknown contents; a map source has elements val[ix:=j]"""
    n = 0
    names = {}
    def __init__(self, name, lo=-BIG, hi=BIG, length=None, val=None, ix=None, base=None, kind="int", tkey=None):
        Src.n += 1
        k = Src.names[name] = Src.names.get(name, 0) + 1      # printed names are part of keys: never the same for two sources
        if k > 1: name = "%s~%d" % (name, k)
        self.id = Src.n; self.name = name; self.lo = lo; self.hi = hi; self.length = length; self.val = val; self.ix = ix; self.base = base; self.kind = kind
        self.tkey = tkey
    def key(self):
        if self.val is not None: return ("map", show(self.val, {self.ix: "."}))
        return self.tkey if self.tkey is not None else ("src", self.id)
    def __repr__(self): return self.name
_srcs = {}
def src_of(tkey, name, lo=-BIG, hi=BIG, **kw):
    s = _srcs.get(tkey)
    if s is None: s = _srcs[tkey] = Src(name, lo, hi, tkey=("st",) + (tkey if isinstance(tkey, tuple) else (tkey,)), **kw)
    return s
def bits_of(src):
    if src.base is None:
        b = Src("bits(%s)" % src.name, 0, 1, kind="bit"); b.tkey = ("bits", src.key()); b.owner = src; src.base = b
    return src.base
def map_src(val, ix):
    k = ("map", show(val, {ix: "."}))
    s = _srcs.get(k)
    if s is None: s = _srcs[k] = Src("map(%s)" % k[1], val=val, ix=ix)
    return s

# ------------------------------------------------------------------ values
class V:
    def key(self): return ("v", id(self))
class I(V):
    __slots__ = ("lin", "bits")
    def __init__(self, lin, bits=None):
        self.lin = lin if isinstance(lin, tuple) else (lin, {}); self.bits = bits
    def key(self): return ("I",) + lkey(self.lin)
    def __repr__(self): return show(self)
class K(V):
    def __init__(self, v): self.v = v
    def key(self): return ("K", type(self.v).__name__, repr(self.v))
    def __repr__(self): return repr(self.v)
class B(V):
    def __init__(self, c): self.c = c
    def key(self): return ("B", ckey(self.c))
    def __repr__(self): return "B%r" % (ckey(self.c),)
class S(V):
    """kind: bytes str list tuple array; pieces: ("c", [values]) ("s", Src, pos, len) ("r", value, len)"""
    def __init__(self, kind, pieces, esz=1): self.kind = kind; self.p = norm_pieces(pieces); self.esz = esz
    def key(self): return ("S", self.kind) + tuple(pkey(x) for x in self.p)
    def __repr__(self): return show(self)
class R(V):
    def __init__(self, i): self.i = i
    def key(self): return ("R", self.i)
    def __repr__(self): return "R%d" % self.i
class T(V):
    def __init__(self, op, *args): self.op = op; self.a = args
    def key(self): return ("T", self.op) + tuple(akey(x) for x in self.a)
    def __repr__(self): return show(self)
class Fn(V):
    def __init__(self, node, mod, cls=None, clo=None): self.node = node; self.mod = mod; self.cls = cls; self.clo = clo
    def key(self): return ("Fn", self.mod.name, self.node.lineno)
class Cls(V):
    def __init__(self, name, mod, bases, body): self.name = name; self.mod = mod; self.bases = bases; self.body = body
    def key(self): return ("Cls", self.mod.name, self.name)
    def find(self, n):
        if n in self.body: return self.body[n], self
        for b in self.bases:
            r = b.find(n) if isinstance(b, Cls) else None
            if r: return r
        return None
    def __repr__(self): return "<%s>" % self.name
class Bound(V):
    def __init__(self, f, self_): self.f = f; self.s = self_
    def key(self): return ("Bd", akey(self.f), akey(self.s))
class Mod(V):
    def __init__(self, name): self.name = name; self.env = {}
    def key(self): return ("M", self.name)
class Ext(V):
    """something of a library: qualified name"""
    def __init__(self, name): self.name = name
    def key(self): return ("X", self.name)
    def __repr__(self): return self.name
class Undef(V):
    def key(self): return ("U",)
class Exc(V):
    def __init__(self, name, where=None): self.name = name; self.where = where
    def key(self): return ("E", self.name)
    def __repr__(self): return "raise " + self.name
NONE = K(None); TRUE = K(True); FALSE = K(False)
class Obj:
    def __init__(self, cls, attrs): self.cls = cls; self.a = attrs
    def copy(self): return Obj(self.cls, dict(self.a))
class SeqO:
    def __init__(self, s): self.s = s
    def copy(self): return SeqO(self.s)
class DictO:
    def __init__(self, d): self.d = d
    def copy(self): return DictO(dict(self.d))

def plen(x): return lconst(len(x[1])) if x[0] == "c" else x[-1]
def pkey(x):
    if x[0] == "c": return ("c",) + tuple(v.key() for v in x[1])
    if x[0] == "s": return ("s", x[1].key(), lkey(x[2]), lkey(x[3]))
    return ("r", x[1].key(), lkey(x[2]))
def norm_pieces(ps):
    out = []
    for x in ps:
        l = plen(x)
        if not l[1] and l[0] == 0: continue
        if x[0] == "c" and len(x[1]) == 1:
            e = elem_piece(x[1][0])
            if e is not None: x = e
        if x[0] == "r" and not x[2][1] and x[2][0] <= 4: x = ("c", [x[1]] * x[2][0])
        if out:
            y = out[-1]
            if x[0] == "s" and y[0] == "s" and x[1] is y[1] and leq(ladd(y[2], y[3]), x[2]):
                out[-1] = ("s", y[1], y[2], ladd(y[3], x[3])); continue
            if x[0] == "c" and y[0] == "c": out[-1] = ("c", y[1] + x[1]); continue
            if x[0] == "r" and y[0] == "r" and x[1].key() == y[1].key(): out[-1] = ("r", y[1], ladd(y[2], x[2])); continue
            if x[0] == "r" and y[0] == "c" and all(v.key() == x[1].key() for v in y[1]): out[-1] = ("r", x[1], ladd(lconst(len(y[1])), x[2])); continue
            if x[0] == "c" and y[0] == "r" and all(v.key() == y[1].key() for v in x[1]): out[-1] = ("r", y[1], ladd(y[2], lconst(len(x[1])))); continue
        out.append(x)
    return out
def elem_piece(v):
    """a value that is the element of a source: one-element slice"""
    if isinstance(v, I) and v.lin[0] == 0 and len(v.lin[1]) == 1:
        (s, c), = v.lin[1].items()
        d = DEF.get(s)
        if c == 1 and d and d[0] == "at": return ("s", d[1][0], d[1][1], lconst(1))
    if isinstance(v, T) and v.op == "at": return ("s", v.a[0], v.a[1], lconst(1))
    return None
def slen(s):
    l = (0, {})
    for x in s.p: l = ladd(l, plen(x))
    return l

# ------------------------------------------------------------------ printing, substitution
def show(v, names=None):
    n = names or {}
    if islin(v):
        r = []
        for s, c in v[1].items():
            t = n.get(s)
            if t is None:
                d = DEF.get(s)
                t = "%s(%s)" % (d[0], ",".join(show(a, n) for a in d[1])) if d else repr(s)
            r.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + t)
        r.sort()
        if v[0] or not r: r.append(str(v[0]))
        return "+".join(r)
    if isinstance(v, I): return show(v.lin, n)
    if isinstance(v, S):
        o = []
        for x in v.p:
            if x[0] == "c": o.append("[%s]" % ",".join(show(y, n) for y in x[1]))
            elif x[0] == "s": o.append("%s[%s:+%s]" % (show(x[1], n), show(x[2], n), show(x[3], n)))
            else: o.append("%s*%s" % (show(x[1], n), show(x[2], n)))
        return "".join(o) or "[]"
    if isinstance(v, Src):
        if v.val is not None:
            m = dict(n); m[v.ix] = "."; return "{%s}" % show(v.val, m)
        if isinstance(v.tkey, tuple) and v.tkey[0] == "bits": return "bits(%s)" % show(v.owner, n)
        if getattr(v, "term", None) is not None: return show(v.term, n)
        return v.name
    if isinstance(v, T): return "%s(%s)" % (v.op, ",".join(show(a, n) for a in v.a))
    if isinstance(v, B): return "?" + cshow(v.c, n)
    if isinstance(v, tuple): return "(%s)" % ",".join(show(a, n) for a in v)
    if isinstance(v, Bound): return "%s.%s" % (show(v.s, n), show(v.f, n))
    if isinstance(v, Fn): return v.node.name if hasattr(v.node, "name") else "lambda"
    return repr(v)

def has(v, syms):
    """does a value mention one of the symbols"""
    if islin(v):
        for s in v[1]:
            if s in syms: return True
            d = DEF.get(s)
            if d and any(has(a, syms) for a in d[1]): return True
        return False
    if isinstance(v, I): return has(v.lin, syms)
    if isinstance(v, S): return any(has(x, syms) for p in v.p for x in ((p[1] if p[0] == "c" else p[1:]))) if v.p else False
    if isinstance(v, Src):
        if v.val is not None: return has(v.val, syms)
        if getattr(v, "owner", None) is not None: return has(v.owner, syms)
        return has(v.term, syms) if getattr(v, "term", None) is not None else False
    if isinstance(v, T): return any(has(a, syms) for a in v.a)
    if isinstance(v, B): return chas(v.c, syms)
    if isinstance(v, (tuple, list)): return any(has(a, syms) for a in v)
    if isinstance(v, Bound): return has(v.s, syms)
    return False

def sub(v, m, ip):
    """substitute symbols by linear forms, rebuilding terms"""
    if islin(v):
        out = (v[0], {})
        for s, c in v[1].items():
            r = m.get(s)
            if r is None:
                d = DEF.get(s)
                if d and any(has(a, m) for a in d[1]):
                    r = ip.rebuild(d[0], tuple(sub(a, m, ip) for a in d[1]), s)
                else: r = lsym(s)
            out = ladd(out, r, c)
        return out
    if isinstance(v, I):
        if not has(v, m) and not v.bits: return v
        b = v.bits
        if b is not None: b = [(x[0], x[1], sub(x[2], m, ip), sub(x[3], m, ip)) if x[0] == "s" else x for x in b]
        return I(sub(v.lin, m, ip), b)
    if isinstance(v, S):
        return S(v.kind, [("c", [sub(y, m, ip) for y in x[1]]) if x[0] == "c" else ("s", sub(x[1], m, ip), sub(x[2], m, ip), sub(x[3], m, ip)) if x[0] == "s"
                          else ("r", sub(x[1], m, ip), sub(x[2], m, ip)) for x in v.p], v.esz)
    if isinstance(v, Src):
        if v.val is not None and has(v.val, m): return map_src(sub(v.val, m, ip), v.ix)
        if getattr(v, "owner", None) is not None and has(v.owner, m): return bits_of(sub(v.owner, m, ip))
        if getattr(v, "term", None) is not None and has(v.term, m): return ip.src_term(sub(v.term, m, ip), v.lo, v.hi)
        return v
    if isinstance(v, T): return T(v.op, *[sub(a, m, ip) for a in v.a])
    if isinstance(v, B): return B(csub(v.c, m, ip))
    if isinstance(v, tuple): return tuple(sub(a, m, ip) for a in v)
    if isinstance(v, Bound): return Bound(v.f, sub(v.s, m, ip))
    return v

# ------------------------------------------------------------------ conditions
# ("T",) ("F",) ("ge",lin) ("eq",lin) ("ne",lin) ("tt",value) ("ntt",value) ("and",..) ("or",..) ("all",cond,ix,lo,hi) ("nall",...)
def ckey(c):
    if c[0] in ("ge", "eq", "ne"): return (c[0],) + lkey(c[1])
    if c[0] in ("tt", "ntt"): return (c[0], c[1].key())
    if c[0] in ("and", "or"): return (c[0],) + tuple(ckey(x) for x in c[1:])
    if c[0] in ("all", "nall"): return (c[0], cshow(c[1], {c[2]: "."}), lkey(c[3]), lkey(c[4]))
    return c
def cshow(c, n=None):
    if c[0] in ("ge", "eq", "ne"): return "%s %s 0" % (show(c[1], n), {"ge": ">=", "eq": "==", "ne": "!="}[c[0]])
    if c[0] in ("tt", "ntt"): return ("" if c[0] == "tt" else "not ") + show(c[1], n)
    if c[0] in ("and", "or"): return "(%s)" % (" %s " % c[0]).join(cshow(x, n) for x in c[1:])
    if c[0] in ("all", "nall"):
        m = dict(n or {}); m[c[2]] = "."
        return "%s[%s..%s) %s" % (c[0], show(c[3], n), show(c[4], n), cshow(c[1], m))
    return c[0]
def chas(c, syms):
    if c[0] in ("ge", "eq", "ne", "tt", "ntt"): return has(c[1], syms)
    if c[0] in ("and", "or"): return any(chas(x, syms) for x in c[1:])
    if c[0] in ("all", "nall"): return chas(c[1], syms) or has(c[3], syms) or has(c[4], syms)
    return False
def csub(c, m, ip):
    if c[0] in ("ge", "eq", "ne"): return cmk(c[0], sub(c[1], m, ip))
    if c[0] in ("tt", "ntt"): return (c[0], sub(c[1], m, ip))
    if c[0] in ("and", "or"): return (c[0],) + tuple(csub(x, m, ip) for x in c[1:])
    if c[0] in ("all", "nall"): return (c[0], csub(c[1], m, ip), c[2], sub(c[3], m, ip), sub(c[4], m, ip))
    return c
def cmk(op, lin):
    if op in ("eq", "ne") and lin[1]:
        s = min(lin[1])
        if lin[1][s] < 0: lin = lscale(lin, -1)
    if not lin[1]:
        x = lin[0]
        return ("T",) if (x >= 0 if op == "ge" else x == 0 if op == "eq" else x != 0) else ("F",)
    if op == "ne" and len(lin[1]) == 1:
        # a value that is 0 or 1
        (s, k), = lin[1].items()
        if k == 1 and (s.lo, s.hi) == (0, 1) and lin[0] in (0, -1): return ("eq", (-1 - lin[0], lin[1]))
    return (op, lin)
def cnot(c):
    o = c[0]
    if o == "T": return ("F",)
    if o == "F": return ("T",)
    if o == "ge": return cmk("ge", (-c[1][0] - 1, {s: -k for s, k in c[1][1].items()}))
    if o == "eq": return cmk("ne", c[1])
    if o == "ne": return cmk("eq", c[1])
    if o == "tt": return ("ntt", c[1])
    if o == "ntt": return ("tt", c[1])
    if o == "and": return ("or",) + tuple(cnot(x) for x in c[1:])
    if o == "or": return ("and",) + tuple(cnot(x) for x in c[1:])
    if o == "all": return ("nall",) + c[1:]
    if o == "nall": return ("all",) + c[1:]

# ------------------------------------------------------------------ state
class PState(State):
    __slots__ = ()
    maxfacts = 200

class St:
    __slots__ = ("n", "fr", "heap", "g", "pc", "eq", "dead")
    def __init__(self):
        self.n = PState(); self.fr = [{}]; self.heap = {}; self.g = {}; self.pc = []; self.eq = {}
    def fork(self):
        s = St.__new__(St)
        s.n = self.n.fork(); s.fr = [dict(f) for f in self.fr]; s.heap = dict(self.heap); s.g = dict(self.g); s.pc = list(self.pc); s.eq = dict(self.eq)
        return s
    def norm(self, l):
        e = self.eq
        if not e: return l
        for _ in range(40):
            m = [s for s in l[1] if s in e]
            if not m: return l
            for s in m:
                k = l[1].get(s)
                if k: l = ladd(ladd(l, lsym(s), -k), e[s], k)
        return l
    def prove(self, l): return self.n.prove(self.norm(l))
    def zero(self, l):
        l = self.norm(l)
        if not l[1]: return l[0] == 0
        return self.n.prove(l) and self.n.prove(lscale(l, -1))
    def nonzero(self, l):
        l = self.norm(l)
        if not l[1]: return l[0] != 0
        if self.n.prove(ladd(l, lconst(-1))) or self.n.prove(ladd(lscale(l, -1), lconst(-1))): return True
        for c in self.pc:
            if c[0] == "ne":
                d = self.norm(c[1])
                if leq(d, l) or leq(lscale(d, -1), l): return True
        return False
    def add(self, l):
        l = self.norm(l)
        if not self.n.add_fact(l): return False
        if l[1] and self.n.prove(lscale(l, -1)): return self.add_eq(l)
        if len(l[1]) > 1:
            # two facts that leave one symbol bound it (with integer rounding)
            for g in list(self.n.facts):
                if any(g[1].get(s) == -k for s, k in l[1].items()):
                    h = ladd(l, g)
                    if len(h[1]) == 1 and not self.n.add_fact(h): return False
        # a boundary excluded by a recorded disequality
        for c in self.pc:
            if c[0] == "ne":
                d = self.norm(c[1])
                if leq(d, l) or leq(lscale(d, -1), l): return self.n.add_fact(ladd(l, lconst(-1)))
        return True
    def close(self):
        "opposite facts become equations; False: infeasible"
        for _ in range(8):
            ks = {lkey(f): f for f in self.n.facts if f[1]}
            fx = [(s, v[0]) for s, v in self.n.sb.items() if v[0] == v[1] and s not in self.eq]
            ch = False
            for f in list(ks.values()):
                if f[1] and lkey(lscale(f, -1)) in ks and self.norm(f)[1]:
                    ch = True
                    if not self.add_eq(f): return False
            for s, v in fx:
                if s not in self.eq:
                    if not self.add_eq(ladd(lsym(s), lconst(-v))): return False
                    ch = True
            if not ch: return True
        return True
    def add_eq(self, l):
        l = self.norm(l)
        if not l[1]: return l[0] == 0
        if self.nonzero(l): return False
        g = 0
        for k in l[1].values(): g = _gcd(g, abs(k))
        if g > 1:
            if l[0] % g: return False
            l = (l[0] // g, {s: k // g for s, k in l[1].items()})
        c = [s for s, k in l[1].items() if k in (1, -1)]
        if not c: return self.n.add_fact(l) and self.n.add_fact(lscale(l, -1))
        s = max(c, key=lambda s: (s not in DEF, s.id)); k = l[1][s]
        r = lscale(ladd(l, lsym(s), -k), -k)
        lo, hi = self.n.sbounds(s)
        fs = self.n.facts; self.n.facts = []
        self.eq[s] = r
        if lo > -BIG and not self.n.add_fact(self.norm(ladd(r, lconst(-lo)))): return False
        if hi < BIG and not self.n.add_fact(self.norm(ladd(lscale(r, -1), lconst(hi)))): return False
        ch = []
        for f in fs:
            g = self.norm(f)
            if g is not f and s in f[1]: ch.append(g)
            if not self.n.add_fact(g): return False
        for g in ch:
            g = self.norm(g)
            if g[1] and self.n.prove(lscale(g, -1)) and not self.add_eq(g): return False
        return True
    def rng(self, l):
        l = self.norm(l); lo, hi = self.n.leval(l)
        if self.n.facts and l[1]: lo = max(lo, -self.n.upper(lscale(l, -1))); hi = min(hi, self.n.upper(l))
        return lo, hi
    def assume(self, c):
        """-> list of states (a disjunction forks)"""
        o = c[0]
        if o == "T": return [self]
        if o == "F": return []
        if o == "ge":
            if self.add(c[1]): return [self]
            return []
        if o == "eq":
            if not self.add_eq(c[1]): return []
            self.pc.append(c); return [self]
        if o == "ne":
            if self.zero(c[1]): return []
            l = self.norm(c[1])
            self.pc.append(c)
            if self.n.prove(l) and not self.n.add_fact(ladd(l, lconst(-1))): return []
            if self.n.prove(lscale(l, -1)) and not self.n.add_fact(ladd(lscale(l, -1), lconst(-1))): return []
            return [self]
        if o in ("tt", "ntt", "all", "nall"):
            k = self.dec(c)
            if k is False: return []
            if k is None: self.pc.append(c)
            return [self]
        if o == "and":
            r = [self]
            for x in c[1:]: r = [b for a in r for b in a.assume(x)]
            return r
        if o == "or":
            r = []; pre = []
            for i, x in enumerate(c[1:]):
                ss = [self.fork()]
                for y in pre: ss = [b for a in ss for b in a.assume(cnot(y))]
                r += [b for a in ss for b in a.assume(x)]
                pre.append(x)
            return r
    def dec(self, c):
        """decided truth of a condition or None"""
        o = c[0]
        if o == "T": return True
        if o == "F": return False
        if o == "ge":
            if self.prove(c[1]): return True
            if self.prove(ladd(lscale(c[1], -1), lconst(-1))): return False
            return None
        if o in ("eq", "ne"):
            if self.zero(c[1]): return o == "eq"
            if self.nonzero(c[1]): return o == "ne"
            return None
        if o in ("tt", "ntt"):
            k = ckey(self.cnorm(c)); nk = ckey(self.cnorm(cnot(c)))
            for d in self.pc:
                if d[0] in ("tt", "ntt"):
                    dk = ckey(self.cnorm(d))
                    if dk == k: return True
                    if dk == nk: return False
            return None
        if o in ("all", "nall"):
            w = "all" if o == "all" else "nall"
            lo, hi = self.norm(c[3]), self.norm(c[4])
            if self.prove(ladd(lo, hi, -1)): return o == "all"
            for d in self.pc:
                if d[0] in ("all", "nall") and cshow(d[1], {d[2]: "."}) == cshow(c[1], {c[2]: "."}):
                    if d[0] == "all" and self.prove(ladd(lo, d[3], -1)) and self.prove(ladd(d[4], hi, -1)): return o == "all"
                    if d[0] == "nall" and self.zero(ladd(lo, d[3], -1)) and self.zero(ladd(hi, d[4], -1)): return o == "nall"
            return None
        if o == "and":
            r = [self.dec(x) for x in c[1:]]
            return False if False in r else True if all(r) else None
        if o == "or":
            r = [self.dec(x) for x in c[1:]]
            return True if True in r else None if None in r else False
    def cnorm(self, c):
        return (c[0], self.vnorm(c[1]))
    def vnorm(self, v):
        if isinstance(v, I): return I(self.norm(v.lin))
        if isinstance(v, S): return S(v.kind, [x if x[0] == "c" else ("s", x[1], self.norm(x[2]), self.norm(x[3])) if x[0] == "s" else ("r", x[1], self.norm(x[2])) for x in v.p])
        if isinstance(v, T): return T(v.op, *[self.vnorm(a) if isinstance(a, V) else self.norm(a) if islin(a) else a for a in v.a])
        return v

# ------------------------------------------------------------------ interpreter
UNROLL = 30
def const(v):
    """python constant of a value or None"""
    if isinstance(v, I) and not v.lin[1]: return v.lin[0]
    if isinstance(v, K): return v.v
    return None
def isint(v): return isinstance(v, I) or (isinstance(v, K) and type(v.v) is bool)
def lin_of(v):
    if isinstance(v, I): return v.lin
    if isinstance(v, K) and type(v.v) is bool: return lconst(int(v.v))
    return None
def lit(x):
    if x is None or x is True or x is False or isinstance(x, float) or isinstance(x, complex) or x is Ellipsis: return K(x)
    if isinstance(x, int): return I(x)
    if isinstance(x, str): return S("str", [("c", [K(c) for c in x])])
    if isinstance(x, bytes): return S("bytes", [("c", [I(c) for c in x])])
    raise Unsup("literal %r" % (x,))
def strval(v):
    """python str of a constant string rope"""
    if isinstance(v, S) and v.kind == "str":
        o = ""
        for p in v.p:
            if p[0] == "c" and all(isinstance(x, K) for x in p[1]): o += "".join(x.v for x in p[1])
            elif p[0] == "r" and isinstance(p[1], K) and not p[2][1]: o += p[1].v * p[2][0]
            else: return None
        return o
    return None

class Ip:
    def __init__(self, root, hooks, mhooks=None, stub=(), local=None):
        self.root = root; self.hooks = hooks; self.mhooks = mhooks or {}; self.stub = set(stub); self.mods = {}
        self.quiet = 0; self.comp = 0; self.obl = {}; self.alarms = {}; self.cnt = {}; self.depth = 0; self.steps = 0; self.visited = {}; self.fns = set(); self.nid = 0; self.loops = 0
        self.on_append = None; self.on_exc = None; self.maxsteps = 400000; self.known_unbound = []; self.where = ("", 0)
        self.loop_rounds = 0; self.relcand = True; self.calls = []
    def fresh(self, name, lo=-BIG, hi=BIG): return Sym(name, lo, hi)
    def src_term(self, t, lo=-BIG, hi=BIG, kind="int"):
        s = src_of(("T", akey(t)), show(t), lo, hi, kind=kind); s.term = t; return s
    def oblige(self, kind, ok, where, msg=""):
        if self.quiet: return
        k = (kind, where); self.cnt[k] = self.cnt.get(k, 0) + 1
        if ok: self.obl.setdefault(k, True)
        else:
            self.obl[k] = False; self.alarms.setdefault(k, msg)
    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        m = Mod(name); self.mods[name] = m; m.env["__name__"] = lit(name)
        path = os.path.join(self.root, name.replace(".", "/") + ".py")
        if not os.path.exists(path): path = os.path.join(self.root, name.replace(".", "/"), "__init__.py")
        m.path = path
        tree = ast.parse(open(path).read()); m.tree = tree
        st = St(); st.fr = [m.env]
        self.cur = m
        r = self.block(tree.body, st, m)
        if len(r) != 1: raise Unsup("module %s forks" % name)
        m.env = r[0][0].fr[-1]; m.heap = r[0][0].heap
        return m
    def islocal(self, name):
        return name not in self.stub and (os.path.exists(os.path.join(self.root, name.replace(".", "/") + ".py")) or os.path.isdir(os.path.join(self.root, name.replace(".", "/"))) and False)
    # ---------------------------------------------------------------- statements: -> [(st, kind, val)]
    def block(self, stmts, st, m):
        cur = [st]; out = []
        for s in stmts:
            nxt = []
            for x in cur:
                for r in self.stmt(s, x, m):
                    if r[1] == "next": nxt.append(r[0])
                    else: out.append(r)
            cur = nxt
            if not cur: break
        return [(x, "next", None) for x in cur] + out
    def stmt(self, s, st, m):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsup("too many steps")
        self.visited[(m.name, s.lineno)] = 1; self.where = (m.name, s.lineno)
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None: raise Unsup("statement %s at %s:%d" % (type(s).__name__, m.name, s.lineno))
        return f(s, st, m)
    def exprs_then(self, e, st, m, k):
        out = []
        for s2, v in self.ev(e, st, m):
            if isinstance(v, Exc): out.append((s2, "exc", v))
            else: out += k(s2, v)
        return out
    def s_Expr(self, s, st, m): return self.exprs_then(s.value, st, m, lambda a, v: [(a, "next", None)])
    def s_Pass(self, s, st, m): return [(st, "next", None)]
    def s_Global(self, s, st, m): return [(st, "next", None)]
    def s_Break(self, s, st, m): return [(st, "brk", None)]
    def s_Continue(self, s, st, m): return [(st, "cont", None)]
    def s_Return(self, s, st, m):
        if s.value is None: return [(st, "ret", NONE)]
        return self.exprs_then(s.value, st, m, lambda a, v: [(a, "ret", v)])
    def s_Raise(self, s, st, m):
        if s.exc is None: return [(st, "exc", Exc("reraise"))]
        e = s.exc
        if isinstance(e, ast.Call): e = e.func
        n = e.id if isinstance(e, ast.Name) else "Exception"
        return [(st, "exc", Exc(n, (m.name, s.lineno)))]
    def s_Assert(self, s, st, m):
        out = []
        for a, t in self.cond(s.test, st, m):
            if isinstance(t, Exc): out.append((a, "exc", t))
            elif t: out.append((a, "next", None))
            else: out.append((a, "exc", Exc("AssertionError", (m.name, s.lineno))))
        return out
    def s_Import(self, s, st, m):
        for a in s.names:
            v = self.module(a.name) if self.islocal(a.name) else Ext(a.name if a.asname else a.name.split(".")[0])
            st.fr[-1][a.asname or a.name.split(".")[0]] = v
        return [(st, "next", None)]
    def s_ImportFrom(self, s, st, m):
        if s.module == "__future__": return [(st, "next", None)]
        for a in s.names:
            if self.islocal(s.module):
                mm = self.module(s.module)
                if a.name == "*": st.fr[-1].update(mm.env); continue
                if a.name not in mm.env:
                    self.known_unbound.append((m.name, s.lineno, "%s.%s" % (s.module, a.name))); v = Ext(s.module + "." + a.name)
                else: v = mm.env[a.name]
            else: v = Ext("%s.%s" % (s.module, a.name))
            st.fr[-1][a.asname or a.name] = v
        return [(st, "next", None)]
    def s_FunctionDef(self, s, st, m):
        st.fr[-1][s.name] = Fn(s, m, clo=st.fr[-1] if len(st.fr) > 1 else None)
        return [(st, "next", None)]
    def s_ClassDef(self, s, st, m):
        bases = []
        for b in s.bases:
            r = self.ev(b, st, m)
            bases.append(r[0][1])
        body = {}
        c = Cls(s.name, m, bases, body)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                f = Fn(x, m, c); f.deco = [d.id if isinstance(d, ast.Name) else "?" for d in x.decorator_list]
                body[x.name] = f
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                body[x.targets[0].id] = self.ev(x.value, st, m)[0][1]
        st.fr[-1][s.name] = c
        return [(st, "next", None)]
    def s_If(self, s, st, m):
        out = []
        for a, t in self.cond(s.test, st, m):
            if isinstance(t, Exc): out.append((a, "exc", t))
            else: out += self.block(s.body if t else s.orelse, a, m)
        return out
    def s_With(self, s, st, m):
        cur = [st]; out = []
        for it in s.items:
            n = []
            for a in cur:
                for b, v in self.ev(it.context_expr, a, m):
                    if isinstance(v, Exc): out.append((b, "exc", v)); continue
                    if it.optional_vars is not None:
                        for c, e in self.assign(it.optional_vars, v, b, m): n.append(c)
                    else: n.append(b)
            cur = n
        for a in cur: out += self.block(s.body, a, m)
        return out
    EXC = {"IndexError": ("IndexError", "LookupError", "Exception"), "KeyError": ("KeyError", "LookupError", "Exception"), "ValueError": ("ValueError", "Exception"),
           "TypeError": ("TypeError", "Exception"), "AssertionError": ("AssertionError", "Exception"), "UnboundLocalError": ("UnboundLocalError", "NameError", "Exception"),
           "OverflowError": ("OverflowError", "ArithmeticError", "Exception"), "ZeroDivisionError": ("ZeroDivisionError", "ArithmeticError", "Exception")}
    def s_Try(self, s, st, m):
        out = []
        for a, k, v in self.block(s.body, st, m):
            if k == "exc":
                done = False
                for h in s.handlers:
                    names = ["Exception"] if h.type is None else [x.id if isinstance(x, ast.Name) else x.attr for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(n in self.EXC.get(v.name, (v.name, "Exception")) or n == "BaseException" for n in names):
                        if h.name: a.fr[-1][h.name] = T("exc", K(v.name))
                        out += [(b, k2, v if k2 == "exc" and v2.name == "reraise" else v2) for b, k2, v2 in self.block(h.body, a, m)]
                        done = True; break
                if not done: out.append((a, k, v))
            elif k == "next" and s.orelse: out += self.block(s.orelse, a, m)
            else: out.append((a, k, v))
        if s.finalbody:
            o2 = []
            for a, k, v in out:
                for b, k2, v2 in self.block(s.finalbody, a, m): o2.append((b, k, v) if k2 == "next" else (b, k2, v2))
            out = o2
        return out
    def s_Assign(self, s, st, m):
        def k(a, v):
            cur = [(a, None)]
            for t in s.targets:
                n = []
                for x, e in cur:
                    if e is not None: n.append((x, e)); continue
                    n += self.assign(t, v, x, m)
                cur = n
            return [(x, "exc", e) if e is not None else (x, "next", None) for x, e in cur]
        return self.exprs_then(s.value, st, m, k)
    def s_AnnAssign(self, s, st, m):
        if s.value is None: return [(st, "next", None)]
        return self.exprs_then(s.value, st, m, lambda a, v: [(x, "exc", e) if e is not None else (x, "next", None) for x, e in self.assign(s.target, v, a, m)])
    def s_Delete(self, s, st, m): return [(st, "next", None)]
    def s_AugAssign(self, s, st, m):
        out = []
        load = ast.copy_location(self.as_load(s.target), s.target)
        for a, (cur, v) in self.evs([load, s.value], st, m):
            if isinstance(cur, Exc): out.append((a, "exc", cur)); continue
            if isinstance(cur, R) and isinstance(a.heap.get(cur.i), SeqO) and isinstance(s.op, ast.Add):
                for b, r in self.extend(cur, v, a):
                    out.append((b, "exc", r) if isinstance(r, Exc) else (b, "next", None))
                continue
            for b, r in self.binop(s.op, cur, v, a):
                if isinstance(r, Exc): out.append((b, "exc", r)); continue
                for c, e in self.assign(s.target, r, b, m): out.append((c, "exc", e) if e is not None else (c, "next", None))
        return out
    def as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        for n in ast.walk(t2):
            if hasattr(n, "lineno"): n.lineno = t.lineno
        return t2
    def assign(self, t, v, st, m):
        """-> [(st, exc or None)]"""
        if isinstance(t, ast.Name): st.fr[-1][t.id] = v; return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for a, vs in self.unpack(v, len(t.elts), st):
                if isinstance(vs, Exc): out.append((a, vs)); continue
                cur = [(a, None)]
                for x, y in zip(t.elts, vs):
                    cur = [z for b, e in cur for z in ([(b, e)] if e is not None else self.assign(x, y, b, m))]
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for a, o in self.ev(t.value, st, m):
                if isinstance(o, Exc): out.append((a, o)); continue
                if isinstance(o, R) and isinstance(a.heap.get(o.i), Obj):
                    h = a.heap[o.i].copy(); h.a[t.attr] = v; a.heap[o.i] = h
                out.append((a, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                parts = [t.value] + [x for x in (t.slice.lower, t.slice.upper) if x is not None]
                for a, vs in self.evs(parts, st, m):
                    if isinstance(vs[0], Exc): out.append((a, vs[0])); continue
                    o = vs[0]; i = 1
                    lo = vs[i] if t.slice.lower is not None else None
                    if lo is not None: i += 1
                    hi = vs[i] if t.slice.upper is not None else None
                    out += self.setslice(o, lo, hi, v, a)
                return out
            for a, vs in self.evs([t.value, t.slice], st, m):
                if isinstance(vs[0], Exc): out.append((a, vs[0])); continue
                out += self.setitem(vs[0], vs[1], v, a)
            return out
        raise Unsup("assignment target")
    def unpack(self, v, n, st):
        s = self.seq(v, st)
        if s is not None:
            l = slen(s)
            if l[1] or l[0] != n: 
                if not l[1]: return [(st, Exc("ValueError"))]
                raise Unsup("unpack of symbolic length")
            cur = [(st, [])]
            for i in range(n):
                cur = [(b, vs + [x]) for a, vs in cur for b, x in self.at(s, lconst(i), a)]
            return cur
        if isinstance(v, K): return [(st, Exc("TypeError"))]
        return [(st, [T("item", v, lconst(i)) for i in range(n)])]
    # ---------------------------------------------------------------- sequences
    def seq(self, v, st):
        if isinstance(v, S): return v
        if isinstance(v, R):
            h = st.heap.get(v.i)
            if isinstance(h, SeqO): return h.s
        return None
    def alloc(self, st, o):
        self.nid += 1; st.heap[self.nid] = o
        if self.on_append and isinstance(o, SeqO): st.g["pos%d" % self.nid] = I(lconst(0))
        return R(self.nid)
    def mk(self, st, kind, pieces, esz=1):
        s = S(kind, pieces, esz)
        return self.alloc(st, SeqO(s)) if kind in ("list", "bytearray", "array") else s
    def split(self, pieces, pos, st):
        """pieces cut at pos (0 <= pos <= length assumed) -> [(st, left, right)]"""
        off = (0, {}); out = []
        for i, x in enumerate(pieces):
            d = st.norm(ladd(pos, off, -1))
            if st.zero(d): return out + [(st, pieces[:i], pieces[i:])]
            l = plen(x); e = ladd(d, l, -1)
            c = st.dec(cmk("ge", e))
            if c is None and self.comp and i == len(pieces) - 1 and x[0] != "c": return out + self.split_in(pieces, i, x, d, st)
            if c is None:
                st2 = st.fork()
                for s3 in st2.assume(cmk("ge", ladd(lscale(e, -1), lconst(-1)))):
                    out += self.split_in(pieces, i, x, d, s3)
                if not st.assume(cmk("ge", e)): return out
            elif c is False:
                return out + self.split_in(pieces, i, x, d, st)
            off = ladd(off, l)
        return out + [(st, list(pieces), [])]
    def split_in(self, pieces, i, x, d, st):
        if st.zero(d): return [(st, pieces[:i], pieces[i:])]
        if x[0] == "c":
            if d[1]:
                lo, hi = st.rng(d); out = []
                if hi - lo > 300: raise Unsup("symbolic cut of a constant sequence")
                for k in range(max(lo, 0), min(hi, len(x[1])) + 1):
                    s2 = st.fork()
                    for s3 in s2.assume(cmk("eq", ladd(d, lconst(-k)))): out += self.split_in(pieces, i, x, lconst(k), s3)
                return out
            k = d[0]
            a, b = ("c", x[1][:k]), ("c", x[1][k:])
        elif x[0] == "s": a, b = ("s", x[1], x[2], d), ("s", x[1], st.norm(ladd(x[2], d)), st.norm(ladd(x[3], d, -1)))
        else: a, b = ("r", x[1], d), ("r", x[1], st.norm(ladd(x[2], d, -1)))
        return [(st, pieces[:i] + [a], [b] + pieces[i + 1:])]
    def elem(self, src, pos, st, kind):
        pos = st.norm(pos) if st is not None else pos
        if src.val is not None: return sub(src.val, {src.ix: pos}, self)
        if kind == "str": return S("str", [("s", src, pos, lconst(1))])
        if src.kind == "val": return T("at", src, pos)
        s = term("at", (src, pos), src.lo, src.hi)
        b = [("s", bits_of(src), lscale(pos, 8), lconst(8))] if (src.lo, src.hi) == (0, 255) else None
        return I(lsym(s), b)
    def rebuild(self, op, args, s):
        if op == "at":
            src, pos = args
            if src.val is not None:
                v = sub(src.val, {src.ix: pos}, self)
                if isinstance(v, I): return v.lin
        if op == "mod" and not args[0][1]: return lconst(args[0][0] % args[1])
        if op == "mod": return self.mod(args[0], args[1], None)
        return lsym(term(op, args, s.lo, s.hi))
    def first(self, p, st, kind):
        x = p[0]
        if x[0] == "c":
            v = x[1][0]
            return S("str", [("c", [v])]) if kind == "str" else v
        if x[0] == "s": return self.elem(x[1], x[2], st, kind)
        return S("str", [("c", [x[1]])]) if kind == "str" else x[1]
    def at(self, s, idx, st):
        """element with bounds check -> [(st, value or Exc)]"""
        n = slen(s); out = []
        for a, neg in self.branch(cmk("ge", lscale(ladd(idx, lconst(1)), -1)), st):
            i = ladd(idx, n) if neg else idx
            for b, ok in self.branch(cmk("ge", i), a):
                if not ok: out.append((b, Exc("IndexError", self.where))); continue
                for c, ok2 in self.branch(cmk("ge", ladd(ladd(n, i, -1), lconst(-1))), b):
                    if not ok2: out.append((c, Exc("IndexError", self.where))); continue
                    for d, l, r in self.split(s.p, i, c):
                        if not r: continue
                        out.append((d, self.first(r, d, s.kind)))
        return out
    def branch(self, c, st):
        """-> [(st, bool)]"""
        d = st.dec(c)
        if d is not None: return [(st, d)]
        s2 = st.fork()
        return [(x, True) for x in s2.assume(c)] + [(x, False) for x in st.assume(cnot(c))]
    def clamp(self, v, n, st, dflt):
        """slice bound -> [(st, lin)] in [0,n]"""
        if v is None or (isinstance(v, K) and v.v is None): return [(st, dflt)]
        l = lin_of(v)
        if l is None: raise Unsup("slice bound %r" % v)
        out = []
        for a, neg in self.branch(cmk("ge", lscale(ladd(l, lconst(1)), -1)), st):
            x = ladd(l, n) if neg else l
            for b, ok in self.branch(cmk("ge", x), a):
                if not ok: out.append((b, lconst(0))); continue
                if b.prove(ladd(n, x, -1)): out.append((b, x)); continue
                for c, big in self.branch(cmk("ge", ladd(x, n, -1)), b): out.append((c, n if big else x))
        return out
    def cut(self, s, lo, hi, st):
        """-> [(st, left, middle, right)]"""
        n = slen(s); out = []
        for a, x in self.clamp(lo, n, st, lconst(0)):
            for b, y in self.clamp(hi, n, a, n):
                for c, ok in self.branch(cmk("ge", ladd(y, x, -1)), b):
                    if not ok: y2 = x
                    else: y2 = y
                    for d, l, r in self.split(s.p, y2, c):
                        for e, l2, r2 in self.split(l, x, d): out.append((e, l2, r2, r))
        return out
    def setslice(self, o, lo, hi, v, st):
        s = self.seq(o, st); w = self.seq(v, st)
        if s is None or not isinstance(o, R): return [(st, None)] if isinstance(o, (T, Ext)) else [(st, Exc("TypeError"))]
        if w is None:
            if isint(v) and s.kind == "array": w = None
            else: w = S(s.kind, [("s", Src("item"), lconst(0), self.vlen(v, st))])
        out = []
        for a, l, mid, r in self.cut(s, lo, hi, st):
            if w is None:
                n = (0, {})
                for x in mid: n = ladd(n, plen(x))
                wp = [("r", v, a.norm(n))]
            else: wp = w.p
            a.heap[o.i] = SeqO(S(s.kind, l + wp + r, s.esz)); out.append((a, None))
        return out
    def vlen(self, v, st): return lsym(term("len", (v,), 0, BIG))
    def setitem(self, o, i, v, st):
        if isinstance(o, R) and isinstance(st.heap.get(o.i), DictO):
            d = st.heap[o.i].copy(); d.d[i.key()] = (i, v); st.heap[o.i] = d; return [(st, None)]
        s = self.seq(o, st)
        if s is None or not isinstance(o, R): return [(st, None)] if not isinstance(o, S) else [(st, Exc("TypeError"))]
        l = lin_of(i); n = slen(s); out = []
        if l is None: raise Unsup("index %r" % (i,))
        for a, neg in self.branch(cmk("ge", lscale(ladd(l, lconst(1)), -1)), st):
            x = ladd(l, n) if neg else l
            for b, ok in self.branch(("and", cmk("ge", x), cmk("ge", ladd(ladd(n, x, -1), lconst(-1)))), a):
                if not ok: out.append((b, Exc("IndexError", self.where))); continue
                for c, L, Rr in self.split(s.p, x, b):
                    for d, M, R2 in self.split(Rr, lconst(1), c):
                        d.heap[o.i] = SeqO(S(s.kind, L + [("c", [v])] + R2, s.esz))
                        if self.on_append: self.on_append(self, d, o, x, v)
                        out.append((d, None))
        return out
    def extend(self, o, v, st):
        s = self.seq(o, st); w = self.seq(v, st)
        if w is None:
            w = S(s.kind, [("s", self.src_term(v) if isinstance(v, T) else Src("ext"), lconst(0), self.vlen(v, st))])
        if self.on_append and s.kind == "list":
            for p in w.p:
                if p[0] == "c":
                    for x in p[1]: self.on_append(self, st, o, slen(s), x)
        st.heap[o.i] = SeqO(S(s.kind, s.p + w.p, s.esz)); return [(st, NONE)]
    # ---------------------------------------------------------------- expressions
    def evs(self, es, st, m):
        """evaluate in order -> [(st, [values])]; an exception gives [Exc, ...]"""
        cur = [(st, [])]
        for i, e in enumerate(es):
            n = []
            for a, vs in cur:
                if vs and isinstance(vs[0], Exc): n.append((a, vs)); continue
                for b, v in self.ev(e, a, m): n.append((b, [v] * len(es)) if isinstance(v, Exc) else (b, vs + [v]))
            cur = n
        return cur
    def ev(self, e, st, m):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None: raise Unsup("expression %s at %s:%d" % (type(e).__name__, m.name, e.lineno))
        return f(e, st, m)
    def e_Constant(self, e, st, m): return [(st, lit(e.value))]
    def e_Name(self, e, st, m):
        fr = st.fr[-1]
        v = fr.get(e.id)
        if v is not None:
            if isinstance(v, Undef):
                return [(st, Exc("UnboundLocalError", (m.name, e.lineno, e.id)))]
            return [(st, v)]
        c = st.g.get("%clo")
        if len(st.fr) > 1:
            f = st.fr[-1].get("%fn")
            if f is not None:
                if e.id in self.locals_of(f.node): return [(st, Exc("UnboundLocalError", (m.name, e.lineno, e.id)))]
                if f.clo is not None and e.id in f.clo: return [(st, f.clo[e.id])]
        v = m.env.get(e.id)
        if v is not None: return [(st, self.import_heap(v, m, st))]
        if e.id in BUILTINS: return [(st, Ext("builtins." + e.id))]
        return [(st, Exc("NameError", (m.name, e.lineno, e.id)))]
    def import_heap(self, v, m, st):
        if isinstance(v, R) and v.i not in st.heap and getattr(m, "heap", None) and v.i in m.heap:
            self.pull(v, m, st)
        elif isinstance(v, R) and v.i not in st.heap:
            for mm in self.mods.values():
                if getattr(mm, "heap", None) and v.i in mm.heap: self.pull(v, mm, st); break
        return v
    def pull(self, v, m, st):
        if not isinstance(v, R) or v.i in st.heap or v.i not in m.heap: return
        h = m.heap[v.i]; st.heap[v.i] = h
        if isinstance(h, DictO):
            for k, x in h.d.values(): self.pull(x, m, st)
        elif isinstance(h, SeqO):
            for p in h.s.p:
                if p[0] == "c":
                    for x in p[1]: self.pull(x, m, st)
        elif isinstance(h, Obj):
            for x in h.a.values(): self.pull(x, m, st)
    def locals_of(self, node):
        r = getattr(node, "_locals", None)
        if r is None:
            r = set()
            if hasattr(node, "body") and isinstance(node.body, list):
                gl = set()
                for n in self.walk_fn(node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): r.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)): r.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names: r.add(a.asname or a.name.split(".")[0])
                    elif isinstance(n, ast.ExceptHandler) and n.name: r.add(n.name)
                    elif isinstance(n, (ast.Global, ast.Nonlocal)): gl |= set(n.names)
                r -= gl
            node._locals = r
        return r
    def walk_fn(self, node):
        st = list(node.body)
        while st:
            n = st.pop(); yield n
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): continue
            st.extend(ast.iter_child_nodes(n))
    def e_JoinedStr(self, e, st, m):
        cur = [(st, [])]
        for p in e.values:
            x = p.value if isinstance(p, ast.FormattedValue) else p
            n = []
            for a, vs in cur:
                for b, v in self.ev(x, a, m):
                    if isinstance(v, Exc): return [(b, v)]
                    n.append((b, vs + [v]))
            cur = n
        return [(a, T("fstr", *vs)) for a, vs in cur]
    def e_Tuple(self, e, st, m, kind="tuple"):
        out = []
        for a, vs in self.evs(e.elts, st, m) if e.elts else [(st, [])]:
            if vs and isinstance(vs[0], Exc): out.append((a, vs[0]))
            else: out.append((a, self.mk(a, kind, [("c", vs)])))
        return out
    def e_List(self, e, st, m): return self.e_Tuple(e, st, m, "list")
    def e_Set(self, e, st, m): return self.e_Tuple(e, st, m, "tuple")
    def e_Dict(self, e, st, m):
        out = []
        if any(k is None for k in e.keys): raise Unsup("dict unpacking")
        for a, vs in self.evs(e.keys + e.values, st, m) if e.keys else [(st, [])]:
            if vs and isinstance(vs[0], Exc): out.append((a, vs[0])); continue
            n = len(e.keys)
            out.append((a, self.alloc(a, DictO({vs[i].key(): (vs[i], vs[n + i]) for i in range(n)}))))
        return out
    def e_Lambda(self, e, st, m): return [(st, Fn(e, m, clo=dict(st.fr[-1])))]
    def e_Starred(self, e, st, m): raise Unsup("starred")
    def e_IfExp(self, e, st, m):
        if self.comp:
            out = []
            for a, v in self.ev(e.test, st, m):
                if isinstance(v, Exc): out.append((a, v)); continue
                c = self.truth(v, a); d = a.dec(c)
                if d is not None: out += self.ev(e.body if d else e.orelse, a, m); continue
                x = self.ev(e.body, a, m); y = self.ev(e.orelse, x[0][0], m)
                if len(x) == 1 and len(y) == 1 and isint(x[0][1]) and isint(y[0][1]):
                    p, r = lin_of(x[0][1]), lin_of(y[0][1])
                    if c[0] in ("ge", "eq", "ne"):
                        out.append((y[0][0], self.ite(c, p, r, y[0][0]))); continue
                out.append((y[0][0], T("ite", B(c), x[0][1], y[0][1])))
            return out
        out = []
        for a, t in self.cond(e.test, st, m): out += [(a, t)] if isinstance(t, Exc) else self.ev(e.body if t else e.orelse, a, m)
        return out
    def e_UnaryOp(self, e, st, m):
        out = []
        for a, v in self.ev(e.operand, st, m):
            if isinstance(v, Exc): out.append((a, v)); continue
            if isinstance(e.op, ast.Not): out.append((a, B(cnot(self.truth(v, a)))))
            elif isinstance(e.op, ast.USub):
                l = lin_of(v)
                out.append((a, I(lscale(l, -1)) if l is not None else K(-v.v) if isinstance(v, K) and isinstance(v.v, (float, int)) else T("neg", v)))
            elif isinstance(e.op, ast.Invert):
                l = lin_of(v); out.append((a, I(ladd(lconst(-1), l, -1)) if l is not None else T("inv", v)))
            else: out.append((a, v))
        return out
    def e_BoolOp(self, e, st, m):
        """value of and/or: short circuit"""
        isand = isinstance(e.op, ast.And)
        cur = self.ev(e.values[0], st, m); out = []
        for i, x in enumerate(e.values[1:]):
            n = []
            for a, v in cur:
                if isinstance(v, Exc): out.append((a, v)); continue
                for b, t in self.branch(self.truth(v, a), a):
                    if t == isand: n += self.ev(x, b, m)
                    else: out.append((b, (FALSE if isand else TRUE) if isinstance(v, B) else v))
            cur = n
        return out + cur
    def cond(self, e, st, m):
        """-> [(st, True/False/Exc)]"""
        out = []
        for a, v in self.ev(e, st, m):
            if isinstance(v, Exc): out.append((a, v))
            else: out += self.branch(self.truth(v, a), a)
        return out
    def truth(self, v, st):
        if isinstance(v, B): return v.c
        if isinstance(v, K): return ("T",) if v.v else ("F",)
        if isinstance(v, I): return cmk("ne", v.lin)
        s = self.seq(v, st)
        if s is not None: return cmk("ge", ladd(slen(s), lconst(-1)))
        if isinstance(v, R):
            h = st.heap.get(v.i)
            return ("T",) if isinstance(h, Obj) else ("T",) if isinstance(h, DictO) and h.d else ("F",)
        if isinstance(v, (T,)): return ("tt", v)
        return ("T",)
    def e_Compare(self, e, st, m):
        out = []
        for a, vs in self.evs([e.left] + e.comparators, st, m):
            if isinstance(vs[0], Exc): out.append((a, vs[0])); continue
            cs = [self.compare(op, x, y, a) for op, x, y in zip(e.ops, vs, vs[1:])]
            ex = [c for c in cs if isinstance(c, Exc)]
            if ex: out.append((a, ex[0])); continue
            out.append((a, B(cs[0] if len(cs) == 1 else ("and",) + tuple(cs))))
        return out
    def compare(self, op, x, y, st):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            c = self.equal(x, y, st, isinstance(op, (ast.Is, ast.IsNot)))
            return cnot(c) if isinstance(op, (ast.NotEq, ast.IsNot)) else c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = None
            s = self.seq(y, st)
            if s is not None and all(p[0] == "c" for p in s.p):
                cs = [self.equal(x, z, st, False) for p in s.p for z in p[1]]
                c = ("or",) + tuple(cs) if cs else ("F",)
                if len(cs) == 1: c = cs[0]
            elif isinstance(y, R) and isinstance(st.heap.get(y.i), DictO):
                cs = [self.equal(x, k, st, False) for k, _ in st.heap[y.i].d.values()]
                c = ("or",) + tuple(cs) if len(cs) > 1 else cs[0] if cs else ("F",)
            else: c = ("tt", T("in", x, y))
            return cnot(c) if isinstance(op, ast.NotIn) else c
        a, b = lin_of(x), lin_of(y)
        if a is not None and b is not None:
            if isinstance(op, ast.Lt): return cmk("ge", ladd(ladd(b, a, -1), lconst(-1)))
            if isinstance(op, ast.LtE): return cmk("ge", ladd(b, a, -1))
            if isinstance(op, ast.Gt): return cmk("ge", ladd(ladd(a, b, -1), lconst(-1)))
            return cmk("ge", ladd(a, b, -1))
        if isinstance(x, K) and isinstance(y, K) and isinstance(x.v, (int, float)) and isinstance(y.v, (int, float)):
            r = {ast.Lt: x.v < y.v, ast.LtE: x.v <= y.v, ast.Gt: x.v > y.v, ast.GtE: x.v >= y.v}[type(op)]
            return ("T",) if r else ("F",)
        if isinstance(x, S) and isinstance(y, S) and x.kind == y.kind == "tuple" and all(p[0] == "c" for p in x.p + y.p):
            u, v = ([const(z) for p in w.p for z in p[1]] for w in (x, y))
            if all(isinstance(z, int) for z in u + v):
                r = {ast.Lt: u < v, ast.LtE: u <= v, ast.Gt: u > v, ast.GtE: u >= v}[type(op)]
                return ("T",) if r else ("F",)
        n = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        if n in ("gt", "ge"): x, y = y, x; n = {"gt": "lt", "ge": "le"}[n]
        return ("tt", T(n, x, y))
    def equal(self, x, y, st, ident):
        a, b = lin_of(x), lin_of(y)
        if a is not None and b is not None and not (ident and (isinstance(x, K) != isinstance(y, K))): return cmk("eq", ladd(a, b, -1))
        if isinstance(x, K) and isinstance(y, K): return ("T",) if x.v == y.v and (not ident or type(x.v) is type(y.v)) else ("F",)
        if isinstance(x, B) and isinstance(y, K) and type(y.v) is bool: return x.c if y.v else cnot(x.c)
        if isinstance(y, B) and isinstance(x, K): return self.equal(y, x, st, ident)
        if (isinstance(x, K) and x.v is None and not isinstance(y, T)) or (isinstance(y, K) and y.v is None and not isinstance(x, T)): return ("F",)
        if ident and isinstance(x, K) and type(x.v) is bool and isinstance(y, (I, S, R, Cls, Fn, Bound)): return ("F",)
        if ident and isinstance(y, K) and type(y.v) is bool and isinstance(x, (I, S, R, Cls, Fn, Bound)): return ("F",)
        s, t = self.seq(x, st), self.seq(y, st)
        if s is not None and t is not None:
            n, k = st.norm(slen(s)), st.norm(slen(t))
            if st.nonzero(ladd(n, k, -1)): return ("F",)
            if not n[1] and n[0] == 0 or not k[1] and k[0] == 0: return cmk("eq", ladd(n, k, -1))
            if S("x", s.p).key()[2:] == S("x", t.p).key()[2:]: return ("T",)
            if not n[1] and not k[1] and n[0] == k[0] and n[0] <= 64:
                cs = []
                try:
                    for i in range(n[0]):
                        u = self.at(s, lconst(i), st.fork()); w = self.at(t, lconst(i), st.fork())
                        if len(u) != 1 or len(w) != 1: raise Unsup("")
                        cs.append(self.eqel(u[0][1], w[0][1], st))
                    cs = [c for c in cs if c[0] != "T"]
                    if any(c[0] == "F" for c in cs): return ("F",)
                    return cs[0] if len(cs) == 1 else ("and",) + tuple(cs) if cs else ("T",)
                except Unsup: pass
            # lengths differing decides; otherwise an opaque comparison guarded by the length equation
            ss = [z for z in (s, t)]
            return ("tt", T("eq", *sorted((st.vnorm(s), st.vnorm(t)), key=show)))
        if isinstance(x, R) and isinstance(y, R) and isinstance(st.heap.get(x.i), Obj): return ("T",) if x.i == y.i else ("F",)
        if isinstance(x, (Cls, Fn, Ext)) and isinstance(y, (Cls, Fn, Ext)): return ("T",) if x.key() == y.key() else ("F",)
        if isinstance(x, Cls) and isinstance(y, R) or isinstance(y, Cls) and isinstance(x, R): return ("F",)
        if isinstance(x, Bound) and isinstance(y, (Ext, Fn, Cls)) or isinstance(y, Bound) and isinstance(x, (Ext, Fn, Cls)): return ("F",)
        if x.key() == y.key(): return ("T",)
        if isinstance(x, (K, I)) and s is None and (t is not None): return ("F",)
        if isinstance(y, (K, I)) and t is None and (s is not None): return ("F",)
        u, w = sorted((st.vnorm(x) if not isinstance(x, R) else x, st.vnorm(y) if not isinstance(y, R) else y), key=show)
        return ("tt", T("is" if ident else "eq", u, w))
    def eqel(self, a, b, st):
        """equality of sequence elements; characters are constants or bits of a bit source"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and len(x.p) == 1 and x.p[0][0] == "s" and x.p[0][1].kind == "bit":
                l = lsym(term("at", (x.p[0][1], x.p[0][2]), 0, 1))
                if isinstance(y, S) and len(y.p) == 1 and y.p[0][0] == "s" and y.p[0][1].kind == "bit":
                    return cmk("eq", ladd(l, lsym(term("at", (y.p[0][1], y.p[0][2]), 0, 1)), -1))
                c = strval(y)
                if c == "0": return cmk("eq", l)
                if c == "1": return cmk("eq", ladd(l, lconst(-1)))
                if c is not None: return ("F",)
        if isinstance(a, S) and isinstance(b, S):
            x, y = strval(a), strval(b)
            if x is not None and y is not None: return ("T",) if x == y else ("F",)
            return ("tt", T("eq", *sorted((a, b), key=show)))
        return self.equal(a, b, st, False)
    def e_Subscript(self, e, st, m):
        out = []
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                for a, v in self.ev(e.value, st, m):
                    out.append((a, v if isinstance(v, Exc) else T("stepslice", v, K(ast.unparse(e.slice)))))
                return out
            parts = [e.value] + [x for x in (e.slice.lower, e.slice.upper) if x is not None]
            for a, vs in self.evs(parts, st, m):
                if isinstance(vs[0], Exc): out.append((a, vs[0])); continue
                o = vs[0]; i = 1
                lo = vs[i] if e.slice.lower is not None else None
                if lo is not None: i += 1
                hi = vs[i] if e.slice.upper is not None else None
                s = self.seq(o, a)
                if s is None:
                    if isinstance(o, T):
                        out.append((a, T("slice", o, lo or NONE, hi or NONE))); continue
                    out.append((a, Exc("TypeError", self.where))); continue
                for b, l, mid, r in self.cut(s, lo, hi, a):
                    if s.kind == "array" and isinstance(o, R):
                        v = self.alloc(b, SeqO(S("array", mid, s.esz)))
                    else: v = self.mk(b, "bytes" if s.kind == "bytes" else s.kind, mid, s.esz)
                    out.append((b, v))
            return out
        for a, (o, i) in self.evs([e.value, e.slice], st, m):
            if isinstance(o, Exc): out.append((a, o)); continue
            out += self.getitem(o, i, a)
        return out
    def getitem(self, o, i, st):
        s = self.seq(o, st)
        if s is not None:
            l = lin_of(i)
            if l is None:
                if isinstance(i, T): return [(st, T("item", o if not isinstance(o, R) else s, i))]
                return [(st, Exc("TypeError", self.where))]
            return self.at(s, l, st)
        if isinstance(o, R) and isinstance(st.heap.get(o.i), DictO):
            d = st.heap[o.i].d
            r = d.get(i.key())
            if r is not None: return [(st, r[1])]
            c = const(i); sv = strval(i)
            if c is not None or sv is not None: return [(st, Exc("KeyError", self.where))]
            out = []
            for k, v in d.values():
                s2 = st.fork()
                for s3 in s2.assume(self.equal(i, k, s2, False)): out.append((s3, v))
            ss = [st]
            for k, v in d.values(): ss = [y for x in ss for y in x.assume(cnot(self.equal(i, k, x, False)))]
            return out + [(x, Exc("KeyError", self.where)) for x in ss]
        if isinstance(o, (T, Ext)): return [(st, T("item", o, i))]
        return [(st, Exc("TypeError", self.where))]
    def e_Attribute(self, e, st, m):
        out = []
        for a, o in self.ev(e.value, st, m):
            out.append((a, o) if isinstance(o, Exc) else (a, self.attr(o, e.attr, a)))
        return out
    def attr(self, o, n, st):
        if isinstance(o, R):
            h = st.heap.get(o.i)
            if isinstance(h, Obj):
                if n in h.a: return h.a[n]
                if h.cls.name.startswith("lib:"): return Bound(Ext("m." + n), o)
                r = h.cls.find(n)
                if r:
                    f = r[0]
                    if isinstance(f, Fn):
                        d = getattr(f, "deco", [])
                        if "classmethod" in d: return Bound(f, h.cls)
                        if "staticmethod" in d: return f
                        return Bound(f, o)
                    return f
                if any(not isinstance(b, Cls) for b in self.bases(h.cls)): return T("attr", o, K(n))
                return Exc("AttributeError", (self.where[0], self.where[1], n))
            return Bound(Ext("m." + n), o)
        if isinstance(o, Cls):
            r = o.find(n)
            if r:
                if isinstance(r[0], Fn) and "classmethod" in getattr(r[0], "deco", []): return Bound(r[0], o)
                return r[0]
            if n == "__name__": return lit(o.name)
            return Exc("AttributeError", (self.where[0], self.where[1], n))
        if isinstance(o, Mod):
            if n in o.env: return self.import_heap(o.env[n], o, st)
            return Exc("AttributeError", (self.where[0], self.where[1], n))
        if isinstance(o, Ext): return S("tuple", [("c", [I(3), I(12), I(0)])]) if o.name + "." + n == "sys.version_info" else Ext(o.name + "." + n)
        if isinstance(o, T):
            f = self.hooks.get("attr:" + n)
            if f:
                r = f(self, st, o)
                if r is not None: return r
            return Bound(Ext("m." + n), o)
        return Bound(Ext("m." + n), o)
    def bases(self, c):
        out = []
        for b in c.bases:
            if isinstance(b, Cls): out += self.bases(b)
            elif not (isinstance(b, Ext) and b.name == "builtins.object"): out.append(b)
        return out
    # ---------------------------------------------------------------- comprehension
    def e_ListComp(self, e, st, m): return self.compr(e, st, m, "list")
    def e_GeneratorExp(self, e, st, m): return self.compr(e, st, m, "gen")
    def e_SetComp(self, e, st, m): return self.compr(e, st, m, "list")
    def e_DictComp(self, e, st, m): return [(st, T("dictcomp", K(ast.unparse(e))))]
    def compr(self, e, st, m, kind):
        g = e.generators[0]; out = []
        for a, it in self.ev(g.iter, st, m):
            if isinstance(it, Exc): out.append((a, it)); continue
            s = self.iterable(it, a)
            n = slen(s)
            if g.ifs: 
                out.append((a, self.mk(a, "list", [("s", Src("filtered"), lconst(0), lsym(self.fresh("flen", 0, BIG)))]))); continue
            saved = dict(a.fr[-1])
            if not n[1] and n[0] <= UNROLL:
                cur = [(a, [])]
                for i in range(n[0]):
                    nx = []
                    for b, vs in cur:
                        if vs and isinstance(vs[0], Exc): nx.append((b, vs)); continue
                        for c, x in self.at(s, lconst(i), b):
                            for d, ex in self.assign(g.target, x, c, m):
                                if ex is not None: nx.append((d, [ex])); continue
                                for f, v in self.inner(e, d, m, kind): nx.append((f, [v] if isinstance(v, Exc) else vs + [v]))
                    cur = nx
                for b, vs in cur:
                    b.fr[-1].clear(); b.fr[-1].update(saved)
                    out.append((b, vs[0] if vs and isinstance(vs[0], Exc) else self.mk(b, "list" if kind == "list" else "tuple", [("c", vs)])))
                continue
            # element-wise: one symbolic index per piece
            self.comp += 1
            try:
                pieces = []; bad = None
                for p in s.p:
                    if p[0] == "c":
                        for x in p[1]:
                            b = a.fork()
                            b2, ex = self.assign(g.target, x, b, m)[0]
                            rs = self.inner(e, b2, m, kind)
                            if len(rs) != 1 or isinstance(rs[0][1], Exc): bad = rs; break
                            self.merge_heap(a, rs[0][0]); pieces.append(("c", [rs[0][1]]))
                        continue
                    if p[0] == "r": ix = None; x = p[1]; b = a.fork()
                    else:
                        ix = self.fresh("ix", 0, BIG); b = a.fork()
                        b.n.add_fact(b.norm(ladd(ladd(p[3], lsym(ix), -1), lconst(-1))))
                        x = self.elem(p[1], ladd(p[2], lsym(ix)), b, s.kind)
                    rr = self.assign(g.target, x, b, m)
                    pre = b.fork()
                    rs = [r for b2, ex in rr for r in self.inner(e, b2, m, kind)]
                    if len(rs) == 2:
                        v = self.two_way(rs, pre)
                        if v is not None: rs = [(pre, v)]
                    if len(rs) != 1 or isinstance(rs[0][1], Exc) or not isinstance(rs[0][1], (I, S, T, B, K)): bad = rs; break
                    v = rs[0][1]
                    if isinstance(v, S): v = S(v.kind, [(q[0],) + tuple(q[1:]) for q in v.p])
                    if ix is None or not has(v, {ix}): pieces.append(("r", v, p[-1]))
                    else: pieces.append(("s", map_src(v, ix), lconst(0), p[3]))
                if bad is not None:
                    for b, v in bad:
                        if isinstance(v, Exc): b.fr[-1].clear(); b.fr[-1].update(saved); out.append((b, v))
                    pieces = [("s", Src("comp@%d" % e.lineno), lconst(0), n)]
            finally: self.comp -= 1
            a.fr[-1].clear(); a.fr[-1].update(saved)
            out.append((a, self.mk(a, "list", pieces)))
        return out
    def ite(self, c, p, r, st):
        "integer that is p if c holds and r otherwise, with the range each case allows"
        lo, hi = BIG, -BIG
        for d, l in ((c, p), (cnot(c), r)):
            g = st.fork()
            if not g.assume(d): continue
            u, v = g.rng(l); lo = min(lo, u); hi = max(hi, v)
        if lo > hi: lo, hi = -BIG, BIG
        return I(lsym(term("ite", (B(c), st.norm(p), st.norm(r)), lo, hi)))
    def two_way(self, rs, base):
        "two results of one test on integers -> one conditional value"
        (f, x), (g, y) = rs
        if not (isinstance(x, I) and isinstance(y, I)) or f.eq != base.eq or g.eq != base.eq: return None
        if len(f.pc) != len(base.pc) or len(g.pc) != len(base.pc): return None
        def new(st):
            k0 = {lkey(h) for h in base.n.facts}
            out = [h for h in st.n.facts if lkey(h) not in k0]
            for s in set(st.n.sb) | set(base.n.sb):
                u, v = st.n.sbounds(s), base.n.sbounds(s)
                if u[0] > v[0]: out.append((-u[0], {s: 1}))
                if u[1] < v[1]: out.append((u[1], {s: -1}))
            return out
        a, b = new(f), new(g)
        if len(a) != 1 or len(b) != 1 or not leq(ladd(a[0], b[0]), lconst(-1)): return None
        return self.ite(("ge", a[0]), x.lin, y.lin, base)
    def merge_heap(self, a, b):
        for k, h in b.heap.items():
            if k not in a.heap: a.heap[k] = h
    def inner(self, e, st, m, kind):
        if len(e.generators) == 1:
            r = self.ev(e.elt, st, m)
            # lists made inside an element become immutable values
            return [(a, self.freeze(v, a)) for a, v in r]
        f = ast.ListComp(e.elt, e.generators[1:]); ast.copy_location(f, e)
        return [(a, self.freeze(v, a)) for a, v in self.compr(f, st, m, kind)]
    def freeze(self, v, st):
        if not self.comp: return v
        s = self.seq(v, st)
        if isinstance(v, R) and s is not None: return S("list", [("c", [self.freeze(x, st) for x in p[1]]) if p[0] == "c" else p for p in s.p])
        return v
    def iterable(self, v, st):
        s = self.seq(v, st)
        if s is not None: return s
        if isinstance(v, R) and isinstance(st.heap.get(v.i), DictO): return S("list", [("c", [k for k, _ in st.heap[v.i].d.values()])])
        if isinstance(v, T): return S("list", [("s", self.src_term(v), lconst(0), self.vlen(v, st))])
        raise Unsup("iteration over %r" % (v,))
    # ---------------------------------------------------------------- arithmetic
    def mod(self, l, k, st):
        if k <= 0: return lsym(term("mod", (l, k)))
        t = {}
        c = l[0]
        for s, x in l[1].items():
            d = DEF.get(s)
            if d and d[0] == "mod" and d[1][1] == k:
                i = d[1][0]; c += x * i[0]
                for s2, x2 in i[1].items(): t[s2] = t.get(s2, 0) + x * x2
            else: t[s] = t.get(s, 0) + x
        l2 = (c % k, {s: x % k for s, x in t.items() if x % k})
        if not l2[1]: return lconst(l2[0])
        if st is not None:
            lo, hi = st.rng(l)
            if lo >= 0 and hi < k: return l
            lo, hi = st.rng(l2)
            if lo >= 0 and hi < k: return l2
        return lsym(term("mod", (l2, k), 0, k - 1))
    def div(self, l, k, st):
        if all(x % k == 0 for x in l[1].values()):
            return (l[0] // k, {s: x // k for s, x in l[1].items()})
        lo, hi = st.rng(l)
        if lo // k == hi // k: return lconst(lo // k)
        q = term("div", (l, k), lo // k, hi // k)
        # k*q <= l < k*q + k
        st.n.add_fact(st.norm(ladd(l, lsym(q), -k))); st.n.add_fact(st.norm(ladd(ladd(lscale(l, -1), lsym(q), k), lconst(k - 1))))
        return lsym(q)
    def mul(self, a, b, st):
        if not a[1]: return lscale(b, a[0])
        if not b[1]: return lscale(a, b[0])
        x, y = sorted((a, b), key=lkey)
        if st is None: lo, hi = -BIG, BIG
        else:
            r, s = st.rng(a), st.rng(b); c = [i * j for i in r for j in s]; lo, hi = max(min(c), -BIG), min(max(c), BIG)
            if leq(a, b): lo = max(lo, 0)
        return lsym(term("mul", (x, y), lo, hi))
    def bitval(self, bits):
        """integer of a rope of bits, most significant first"""
        ps = [x for x in norm_bits(bits)]
        if not ps: return I(0, [])
        if all(x[0] == "c" for x in ps):
            v = 0
            for x in ps:
                for y in x[1]: v = 2 * v + y
            return I(v, ps)
        n = (0, {})
        for x in ps: n = ladd(n, lconst(len(x[1])) if x[0] == "c" else x[3])
        hi = (1 << n[0]) - 1 if not n[1] and n[0] <= 64 else BIG
        lo = 0
        if len(ps) == 1 and ps[0][0] == "s" and not ps[0][3][1] and ps[0][3][0] == 8:
            o = ps[0][1].owner if hasattr(ps[0][1], "owner") else None
            p = ps[0][2]
            if o is not None and p[0] % 8 == 0 and all(k % 8 == 0 for k in p[1].values()):
                return I(lsym(term("at", (o, (p[0] // 8, {s: k // 8 for s, k in p[1].items()})), 0, 255)), ps)
        if ps[0][0] == "c" and not n[1]:
            v = 0
            for y in ps[0][1]: v = 2 * v + y
            k = n[0] - len(ps[0][1]); r = self.bitval(ps[1:])
            return I(ladd(r.lin, lconst(v << k)), ps)
        if not n[1] and n[0] <= 64 and all(x[0] == "s" and not x[3][1] and x[3][0] % 8 == 0 and getattr(x[1], "owner", None) is not None and not any(v % 8 for v in (x[2][0], *x[2][1].values())) for x in ps):
            # whole bytes: written as a sum of bytes
            l = (0, {}); k = n[0]
            for x in ps:
                o = (x[2][0] // 8, {s: v // 8 for s, v in x[2][1].items()})
                for j in range(x[3][0] // 8): k -= 8; l = ladd(l, lsym(term("at", (x[1].owner, ladd(o, lconst(j))), 0, 255)), 1 << k)
            return I(l, ps)
        args = tuple(("c", tuple(x[1])) if x[0] == "c" else ("s", x[1], x[2], x[3]) for x in ps)
        return I(lsym(term("bits", args, lo, hi)), ps)
    def binop(self, op, x, y, st):
        """-> [(st, value)]"""
        a, b = lin_of(x), lin_of(y)
        if a is not None and b is not None: return self.intop(op, x, y, a, b, st)
        s, t = self.seq(x, st), self.seq(y, st)
        if isinstance(op, ast.Add) and s is not None and t is not None and s.kind != "array":
            kind = s.kind
            return [(st, self.mk(st, kind, s.p + t.p))]
        if isinstance(op, ast.Add) and s is not None and isinstance(y, T):
            return [(st, self.mk(st, s.kind, s.p + [("s", self.src_term(y, *((0, 255) if s.kind != "str" else ())), lconst(0), self.vlen(y, st))]))]
        if isinstance(op, ast.Add) and t is not None and isinstance(x, T):
            return [(st, self.mk(st, t.kind, [("s", self.src_term(x, *((0, 255) if t.kind != "str" else ())), lconst(0), self.vlen(x, st))] + t.p))]
        if isinstance(op, ast.Mult) and (s is not None and b is not None or t is not None and a is not None):
            q, n = (s, b) if s is not None else (t, a)
            out = []
            for c, neg in self.branch(cmk("ge", lscale(n, -1)), st):
                if neg: out.append((c, self.mk(c, q.kind, []))); continue
                if not n[1] and len(q.p) and n[0] <= 64: ps = q.p * n[0]
                elif len(q.p) == 1 and q.p[0][0] == "c" and len(q.p[0][1]) == 1: ps = [("r", q.p[0][1][0], n)]
                elif len(q.p) == 1 and q.p[0][0] == "r": ps = [("r", q.p[0][1], self.mul(q.p[0][2], n, c))]
                else: raise Unsup("repetition")
                out.append((c, self.mk(c, q.kind, ps)))
            return out
        if s is not None and s.kind == "array":
            f = self.hooks.get("array.op")
            if f: return f(self, st, op, x, y)
        if isinstance(x, K) and isinstance(y, (K, I)) or isinstance(y, K) and isinstance(x, I):
            p, q = const(x), const(y)
            if isinstance(p, (int, float, complex)) and isinstance(q, (int, float, complex)):
                try:
                    r = {ast.Add: lambda: p + q, ast.Sub: lambda: p - q, ast.Mult: lambda: p * q, ast.Div: lambda: p / q, ast.Pow: lambda: p ** q, ast.FloorDiv: lambda: p // q, ast.Mod: lambda: p % q}[type(op)]()
                    return [(st, lit(r))]
                except Exception: pass
        f = self.hooks.get("binop")
        if f:
            r = f(self, st, op, x, y)
            if r is not None: return r
        if isinstance(x, K) and x.v is None or isinstance(y, K) and y.v is None: return [(st, Exc("TypeError", self.where))]
        if isinstance(op, ast.Mod) and s is not None and s.kind == "str": return [(st, T("fmt", x, y))]
        return [(st, T(type(op).__name__, self.val(x, st), self.val(y, st)))]
    def val(self, v, st):
        """snapshot of a reference as a value"""
        s = self.seq(v, st)
        if isinstance(v, R) and s is not None: return st.vnorm(S(s.kind, [("c", [self.val(x, st) for x in p[1]]) if p[0] == "c" else p for p in s.p]))
        if isinstance(v, S): return st.vnorm(S(v.kind, [("c", [self.val(x, st) for x in p[1]]) if p[0] == "c" else p for p in v.p]))
        if isinstance(v, I): return I(st.norm(v.lin))
        return v
    def bitsof(self, v, st):
        b = getattr(v, "bits", None)
        if b is not None: return b
        l = lin_of(v)
        if l is not None and not l[1] and l[0] >= 0:
            return [("c", [int(c) for c in bin(l[0])[2:]])] if l[0] else []
        return None
    def blen(self, b):
        n = (0, {})
        for x in b: n = ladd(n, lconst(len(x[1])) if x[0] == "c" else x[3])
        return n
    def intop(self, op, x, y, a, b, st):
        if isinstance(op, (ast.Mod, ast.FloorDiv, ast.Mult)) and not b[1] and b[0] > 1 and b[0] & (b[0] - 1) == 0 and any(p[0] == "s" for p in getattr(x, "bits", None) or ()) and not self.isat(x):
            k = b[0].bit_length() - 1
            o2, w = (ast.BitAnd(), I(b[0] - 1)) if isinstance(op, ast.Mod) else (ast.RShift(), I(k)) if isinstance(op, ast.FloorDiv) else (ast.LShift(), I(k))
            r = self.bitop(o2, x, w, a, w.lin, st)
            if r is not None: return r
        if isinstance(op, ast.Add): return [(st, I(ladd(a, b)))]
        if isinstance(op, ast.Sub): return [(st, I(ladd(a, b, -1)))]
        if isinstance(op, ast.Mult): return [(st, I(self.mul(a, b, st)))]
        if isinstance(op, ast.Pow):
            if not b[1]:
                if not a[1] and b[0] >= 0: return [(st, I(a[0] ** b[0]))]
                if b[0] == 2: return [(st, I(self.mul(a, a, st)))]
                if b[0] == 1: return [(st, I(a))]
            if a == (2, {}): return [(st, I(lsym(term("pow2", (b,), 0, BIG))))]
            return [(st, I(lsym(term("pow", (a, b)))))]
        if isinstance(op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
            r = self.bitop(op, x, y, a, b, st)
            if r is not None: return r
        if isinstance(op, ast.LShift):
            if not b[1]: return [(st, I(lscale(a, 1 << b[0])))] if b[0] >= 0 else [(st, Exc("ValueError"))]
            p = term("pow2", (st.norm(b),), 1, BIG)
            return [(st, I(self.mul(a, lsym(p), st)))]
        if isinstance(op, ast.RShift):
            if not b[1]: return [(st, I(self.div(a, 1 << b[0], st)))]
            return [(st, I(lsym(term("shr", (st.norm(a), st.norm(b)), 0 if st.rng(a)[0] >= 0 else -BIG, BIG))))]
        if isinstance(op, ast.FloorDiv):
            if not b[1] and b[0] > 0: return [(st, I(self.div(a, b[0], st)))]
            if not b[1] and b[0] == 0: return [(st, Exc("ZeroDivisionError"))]
            return [(st, I(lsym(term("fdiv", (st.norm(a), st.norm(b))))))]
        if isinstance(op, ast.Mod):
            if not b[1] and b[0] > 0: return [(st, I(self.mod(st.norm(a), b[0], st)))]
            return [(st, I(lsym(term("rem", (st.norm(a), st.norm(b))))))]
        if isinstance(op, ast.Div):
            if not a[1] and not b[1] and b[0]: return [(st, lit(a[0] / b[0]))]
            return [(st, T("Div", I(a), I(b)))]
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if not a[1] and not b[1]:
                return [(st, I({ast.BitAnd: a[0] & b[0], ast.BitOr: a[0] | b[0], ast.BitXor: a[0] ^ b[0]}[type(op)]))]
            if isinstance(op, ast.BitAnd):
                for p, q in ((a, b), (b, a)):
                    if not q[1] and q[0] >= 0 and (q[0] + 1) & q[0] == 0: return [(st, I(self.mod(st.norm(p), q[0] + 1, st)))]
                    if not q[1] and q[0] >= 0: return [(st, I(lsym(term("and", (st.norm(p), q[0]), 0, q[0]))))]
                return [(st, I(lsym(term("and", tuple(sorted((st.norm(a), st.norm(b)), key=lkey)), 0 if st.rng(a)[0] >= 0 or st.rng(b)[0] >= 0 else -BIG, BIG))))]
            for p, q in ((a, b), (b, a)):
                lo, hi = st.rng(q)
                if lo >= 0 and hi < BIG:
                    k = 1 << hi.bit_length()
                    p2 = st.norm(p)
                    if p2[0] % k == 0 and all(c % k == 0 for c in p2[1].values()): return [(st, I(ladd(p, q)))]
            if isinstance(op, ast.BitOr) and st.zero(a): return [(st, y)]
            if isinstance(op, ast.BitOr) and st.zero(b): return [(st, x)]
            return [(st, I(lsym(term("or" if isinstance(op, ast.BitOr) else "xor", tuple(sorted((st.norm(a), st.norm(b)), key=lkey)), 0 if st.rng(a)[0] >= 0 and st.rng(b)[0] >= 0 else -BIG, BIG))))]
        return [(st, T(type(op).__name__, x, y))]
    def bitop(self, op, x, y, a, b, st):
        """operations on integers known bit by bit"""
        bx = getattr(x, "bits", None)
        if isinstance(op, (ast.LShift, ast.RShift)):
            if bx is None or not (bx and any(p[0] == "s" for p in bx)): return None
            if isinstance(op, ast.LShift):
                if b[1] or not 0 <= b[0] <= 64: return None
                return [(st, self.bitval(bx + [("c", [0] * b[0])]))]
            n = self.blen(bx); out = []
            for s1, neg in self.branch(cmk("ge", lscale(ladd(b, lconst(1)), -1)), st):
                if neg: out.append((s1, Exc("ValueError", self.where))); continue
                for s2, big in self.branch(cmk("ge", ladd(b, n, -1)), s1):
                    if big: out.append((s2, I(0, []))); continue
                    for s3, l, r in self.bsplit(bx, ladd(n, b, -1), s2): out.append((s3, self.bitval(l)))
            return out
        if isinstance(op, ast.BitAnd):
            for v, w in ((x, y), (y, x)):
                bv = getattr(v, "bits", None)
                if bv is None or not any(p[0] == "s" for p in bv): continue
                k = self.lowmask(w, st)
                if k is None: continue
                n = self.blen(bv); out = []
                for s2, big in self.branch(cmk("ge", ladd(k, n, -1)), st):
                    if big: out.append((s2, v)); continue
                    for s3, l, r in self.bsplit(bv, ladd(n, k, -1), s2): out.append((s3, self.bitval(r)))
                return out
            return None
        for v, w in ((x, y), (y, x)):
            if isinstance(w, I) and st.zero(w.lin) and isinstance(v, I): return [(st, v)]
        # or/xor/add with the low zero bits of a shifted value
        for v, w in ((x, y), (y, x)):
            bv = self.bitsof(v, st); bw = self.bitsof(w, st)
            if bv is None or bw is None or not bv or not any(p[0] == "s" for p in bv + bw): continue
            if bv[-1][0] != "c": 
                continue
            z = 0
            while z < len(bv[-1][1]) and bv[-1][1][-1 - z] == 0: z += 1
            n = self.blen(bw)
            if z and st.prove(ladd(lconst(z), n, -1)):
                if n[1]: continue
                keep = bv[:-1] + ([("c", bv[-1][1][:len(bv[-1][1]) - z])] if len(bv[-1][1]) > z else [])
                return [(st, self.bitval(keep + ([("c", [0] * (z - n[0]))] if z > n[0] else []) + bw))]
        return None
    def isat(self, v):
        l = v.lin
        return not l[0] and len(l[1]) == 1 and all(k == 1 and s in DEF and DEF[s][0] == "at" for s, k in l[1].items())
    def lowmask(self, w, st):
        """k when w == 2^k - 1"""
        l = st.norm(w.lin) if isinstance(w, I) else None
        if l is None: return None
        if not l[1]: return lconst(l[0].bit_length()) if l[0] >= 0 and l[0] & (l[0] + 1) == 0 else None
        if l[0] == -1 and len(l[1]) == 1:
            (s, c), = l[1].items(); d = DEF.get(s)
            if c == 1 and d and d[0] == "pow2": return d[1][0]
        return None
    def bsplit(self, bits, pos, st):
        ps = [("c", [I(z) for z in p[1]]) if p[0] == "c" else p for p in bits]
        out = []
        for s, l, r in self.split(ps, pos, st):
            f = lambda q: [("c", [z.lin[0] for z in p[1]]) if p[0] == "c" else p for p in q]
            out.append((s, f(l), f(r)))
        return out
    def e_BinOp(self, e, st, m):
        out = []
        for a, (x, y) in self.evs([e.left, e.right], st, m):
            if isinstance(x, Exc): out.append((a, x))
            else: out += self.binop(e.op, x, y, a)
        return out
    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, m):
        out = []
        self.where = (m.name, e.lineno)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = st.fr[-1].get("%fn")
            return [(st, T("super", st.fr[-1].get("%self", NONE), f.cls))]
        pos = []; star = False
        for x in e.args:
            if isinstance(x, ast.Starred): star = True
        kws = [k.arg for k in e.keywords]
        if star or None in kws:
            for a, vs in self.evs([e.func], st, m): out.append((a, vs[0] if isinstance(vs[0], Exc) else T("call", vs[0], K(ast.unparse(e)))))
            return out
        for a, vs in self.evs([e.func] + list(e.args) + [k.value for k in e.keywords], st, m):
            if isinstance(vs[0], Exc): out.append((a, vs[0])); continue
            n = len(e.args)
            self.where = (m.name, e.lineno)
            out += self.call(vs[0], vs[1:1 + n], dict(zip(kws, vs[1 + n:])), a, e)
        return out
    def call(self, f, args, kw, st, node=None):
        if isinstance(f, Bound):
            if isinstance(f.f, Ext) and f.f.name.startswith("m."): return self.method(f.s, f.f.name[2:], args, kw, st)
            if isinstance(f.f, Fn): return self.call(f.f, [f.s] + args, kw, st, node)
            return self.call(f.f, args, kw, st, node)
        if isinstance(f, Fn):
            h = self.hooks.get("%s.%s" % (f.mod.name, (f.cls.name + "." if f.cls else "") + getattr(f.node, "name", "lambda")))
            if h:
                r = h(self, st, args, kw)
                if r is not None: return r
            return self.inline(f, args, kw, st)
        if isinstance(f, Cls):
            h = self.hooks.get("new:%s.%s" % (f.mod.name, f.name))
            if h:
                r = h(self, st, args, kw)
                if r is not None: return r
            if any(isinstance(b, Ext) and b.name.startswith("builtins.") and b.name.endswith(("Error", "Exception")) for b in f.bases): return [(st, T("exc", K(f.name)))]
            o = self.alloc(st, Obj(f, {}))
            r = f.find("__init__")
            if r is None: return [(st, o)]
            return [(a, v if isinstance(v, Exc) else o) for a, v in self.call(r[0], [o] + args, kw, st)]
        if isinstance(f, Ext):
            h = self.hooks.get(f.name) or BUILTIN_FNS.get(f.name)
            if h:
                r = h(self, st, args, kw)
                if r is not None: return r
            return [(st, T("call:" + f.name, *([self.val(x, st) for x in args] + [T("kw", K(k), self.val(v, st)) for k, v in sorted(kw.items())])))]
        if isinstance(f, T):
            h = self.hooks.get("call:T")
            if h:
                r = h(self, st, f, args, kw)
                if r is not None: return r
            return [(st, T("call", f, *([self.val(x, st) for x in args] + [T("kw", K(k), self.val(v, st)) for k, v in sorted(kw.items())])))]
        return [(st, Exc("TypeError", self.where))]
    def bind(self, f, args, kw, st):
        """parameters -> dict or Exc"""
        a = f.node.args; names = [x.arg for x in a.posonlyargs + a.args]; env = {}
        if len(args) > len(names) and not a.vararg: return Exc("TypeError", self.where)
        for n, v in zip(names, args): env[n] = v
        if a.vararg: env[a.vararg.arg] = self.mk(st, "tuple", [("c", args[len(names):])])
        for k, v in kw.items():
            if k in env or (k not in names and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg): return Exc("TypeError", self.where)
            env[k] = v
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in env: env[n] = self.default(d, f, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None: env[x.arg] = self.default(d, f, st)
        miss = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        if miss: return Exc("TypeError", self.where)
        return env
    def default(self, d, f, st):
        st2 = st
        fr = st.fr; st.fr = fr + [{}]
        r = self.ev(d, st, f.mod)
        st.fr = fr
        if len(r) != 1: raise Unsup("default argument")
        return r[0][1]
    def inline(self, f, args, kw, st):
        self.depth += 1
        if self.depth > 40: raise Unsup("recursion in %s" % getattr(f.node, "name", "lambda"))
        try:
            env = self.bind(f, args, kw, st)
            if isinstance(env, Exc): return [(st, env)]
            env["%fn"] = f
            if f.cls and args: env["%self"] = args[0]
            self.fns.add("%s.%s" % (f.mod.name, getattr(f.node, "name", "lambda")))
            st.fr = st.fr + [env]
            out = []
            if isinstance(f.node, ast.Lambda):
                for a, v in self.ev(f.node.body, st, f.mod): a.fr = a.fr[:-1]; out.append((a, v))
                return out
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.walk_fn(f.node)): raise Unsup("generator %s" % f.node.name)
            for a, k, v in self.block(f.node.body, st, f.mod):
                if self.on_return and not self.quiet and k == "ret": self.on_return(self, a, f, v)
                a.fr = a.fr[:-1]
                out.append((a, v if k in ("ret", "exc") else NONE))
            return out
        finally: self.depth -= 1
    on_return = None
    on_back = None
    def method(self, o, n, args, kw, st):
        h = self.mhooks.get(n)
        if h:
            r = h(self, st, o, args, kw)
            if r is not None: return r
        if isinstance(o, T) and o.op == "super":
            cls = o.a[1]
            for b in cls.bases:
                r = b.find(n) if isinstance(b, Cls) else None
                if r: return self.call(r[0], [o.a[0]] + args, kw, st)
            return [(st, NONE)]
        s = self.seq(o, st)
        if s is not None:
            if n == "append" and isinstance(o, R):
                if self.on_append: self.on_append(self, st, o, slen(s), args[0])
                st.heap[o.i] = SeqO(S(s.kind, s.p + [("c", [args[0]])], s.esz)); return [(st, NONE)]
            if n == "extend" and isinstance(o, R): return self.extend(o, args[0], st)
            if n == "copy": return [(st, self.mk(st, s.kind, s.p, s.esz))]
            if n == "join" and s.kind in ("str", "bytes") and not s.p and len(args) == 1:
                w = self.iterable(args[0], st)
                if all(p[0] == "c" for p in w.p):
                    ps = []
                    for p in w.p:
                        for x in p[1]:
                            y = self.seq(x, st)
                            if y is None: ps.append(("s", Src("joined"), lconst(0), self.vlen(x, st)))
                            else: ps += y.p
                    return [(st, S(s.kind, ps))]
                if len(w.p) == 1 and w.p[0][0] == "s" and w.p[0][1].val is not None:
                    v = w.p[0][1].val
                    if isinstance(v, S):
                        l = slen(v); ix = w.p[0][1].ix
                        if not l[1] and l[0] > 0 and len(v.p) == 1 and v.p[0][0] == "s" and v.p[0][2][1].get(ix) == l[0]:
                            return [(st, S(s.kind, [("s", v.p[0][1], st.norm(lsubst(v.p[0][2], {ix: w.p[0][2]})), st.norm(lscale(w.p[0][3], l[0])))]))]
                        if not l[1] and l[0] > 0:
                            src = self.src_term(T("concat", S("list", w.p)), 0, 255)
                            return [(st, S(s.kind, [("s", src, lscale(w.p[0][2], l[0]), lscale(w.p[0][3], l[0]))]))]
                return [(st, S(s.kind, [("s", self.src_term(T("concat", self.val(args[0], st)), 0, 255), lconst(0), lsym(self.fresh("joinlen", 0, BIG)))]))]
            if n == "hex": return [(st, T("hex", self.val(o, st)))]
            if s.kind == "str" and n in ("rstrip", "index", "find") and args and strval(args[0]) in ("0", "1") and len(s.p) <= 1 and all(p[0] == "s" and p[1].kind == "bit" for p in s.p):
                r = self.scan(n, s, strval(args[0]) == "1", lin_of(args[1]) if len(args) > 1 else lconst(0), st) if len(args) <= 2 else None
                if r is not None: return r
        if isinstance(o, I) and n == "to_bytes":
            l = lin_of(args[0]) if args else lin_of(kw.get("length", I(1)))
            order = strval(args[1]) if len(args) > 1 else strval(kw["byteorder"]) if "byteorder" in kw else "big"
            sg = len(args) <= 2 and self.truth(kw.get("signed", FALSE), st)
            if sg not in (("T",), ("F",)): raise Unsup("to_bytes with an unknown signedness")
            return self.to_bytes(o, l, order, st, sg == ("T",))
        if isinstance(o, R) and isinstance(st.heap.get(o.i), DictO):
            d = st.heap[o.i].d
            if n == "get" and args:
                r = d.get(args[0].key())
                if r: return [(st, r[1])]
                if const(args[0]) is not None or strval(args[0]) is not None: return [(st, args[1] if len(args) > 1 else NONE)]
            if n == "items": return [(st, S("list", [("c", [S("tuple", [("c", [k, v])]) for k, v in d.values()])]))]
            if n == "keys": return [(st, S("list", [("c", [k for k, _ in d.values()])]))]
            if n == "values": return [(st, S("list", [("c", [v for _, v in d.values()])]))]
        if isinstance(o, R) and isinstance(st.heap.get(o.i), Obj): return [(st, Exc("AttributeError", self.where))]
        return [(st, T("m:" + n, self.val(o, st), *([self.val(x, st) for x in args] + [T("kw", K(k), self.val(v, st)) for k, v in sorted(kw.items())])))]
    def scan(self, n, s, one, start, st):
        "rstrip, index and find of one character in a rope of bits"
        if start is None: return None
        if not s.p: return [(st, s)] if n == "rstrip" else [(st, I(-1) if n == "find" else Exc("ValueError", self.where))]
        p = s.p[0]; L = p[3]; out = []
        def bit(x): return lsym(term("at", (p[1], st.norm(ladd(p[2], x))), 0, 1))
        ix = Sym("ix", 0, BIG); k = Sym("k", 0, BIG)
        def run(lo, hi, v):
            "every bit in [lo, hi) is v"
            return ("all", cmk("eq", ladd(lsym(term("at", (p[1], ladd(p[2], lsym(ix))), 0, 1)), lconst(-v))), ix, lo, hi)
        if n == "rstrip":
            for a in st.fork().assume(run(lconst(0), L, int(one))): out.append((a, S("str", [])))
            for a in st.fork().assume(("and", cmk("ge", ladd(lsym(k), lconst(-1))), cmk("ge", ladd(L, lsym(k), -1)), run(lsym(k), L, int(one)), cmk("eq", ladd(bit(ladd(lsym(k), lconst(-1))), lconst(int(one) - 1))))):
                out.append((a, S("str", [("s", p[1], p[2], a.norm(lsym(k)))])))
            return out
        if not st.prove(start): return None
        for a in st.fork().assume(run(start, L, int(not one))): out.append((a, I(-1) if n == "find" else Exc("ValueError", self.where)))
        for a in st.fork().assume(("and", cmk("ge", ladd(lsym(k), start, -1)), cmk("ge", ladd(ladd(L, lsym(k), -1), lconst(-1))), run(start, lsym(k), int(not one)), cmk("eq", ladd(bit(lsym(k)), lconst(-int(one)))))):
            out.append((a, I(a.norm(lsym(k)))))
        return out
    def to_bytes(self, v, l, order, st, signed=False):
        if l is None or l[1] or order not in ("big", "little"): return [(st, T("to_bytes", v))]
        k = l[0]; out = []
        lo, hi = (-(1 << 8 * k - 1), (1 << 8 * k - 1) - 1) if signed else (0, (1 << 8 * k) - 1)
        for a, ok in self.branch(("and", cmk("ge", ladd(v.lin, lconst(-lo))), cmk("ge", ladd(lconst(hi), v.lin, -1))), st):
            if not ok: out.append((a, Exc("OverflowError", self.where))); continue
            c = const(v)
            if c is not None: out.append((a, S("bytes", [("c", [I(x) for x in c.to_bytes(k, order, signed=signed)])])))
            elif signed and not a.prove(v.lin): out.append((a, S("bytes", [("s", self.src_term(T("sbe" if order == "big" else "sle", I(k), I(a.norm(v.lin))), 0, 255), lconst(0), l)])))
            else: out.append((a, S("bytes", [("s", self.src_term(T("be" if order == "big" else "le", I(k), I(a.norm(v.lin))), 0, 255), lconst(0), l)])))
        return out
    # ---------------------------------------------------------------- loops
    def s_While(self, s, st, m):
        w = getattr(s, "_w", None)
        if w is None:
            # leading 'if c: break' statements are part of the loop condition
            w = s; test = s.test; body = s.body
            while not s.orelse and len(body) > 1 and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse:
                neg = ast.UnaryOp(ast.Not(), body[0].test)
                test = neg if isinstance(test, ast.Constant) and test.value else ast.BoolOp(ast.And(), [test, neg])
                body = body[1:]
            if not s.orelse and len(body) == 1 and isinstance(body[0], ast.If) and len(body[0].orelse) == 1 and isinstance(body[0].orelse[0], ast.Break):
                test = body[0].test if isinstance(test, ast.Constant) and test.value else ast.BoolOp(ast.And(), [test, body[0].test]); body = body[0].body
            if body is not s.body:
                w = ast.fix_missing_locations(ast.copy_location(ast.While(test, body, []), s))
            s._w = w; w._w = w
        s = w
        def guard(a): return self.cond(s.test, a, m)
        def body(a):
            r = self.block(s.body, a, m)
            return [(x, "next" if k == "cont" else k, v) for x, k, v in r]
        return self.loop(st, guard, body, s, m)
    def s_For(self, s, st, m):
        out = []
        for a, it in self.ev(s.iter, st, m):
            if isinstance(it, Exc): out.append((a, "exc", it)); continue
            q = self.iterable(it, a); n = slen(q)
            ix = "%%ix%d" % s.lineno
            if isinstance(it, R) and isinstance(a.heap.get(it.i), SeqO):
                pass
            a.fr[-1][ix] = I(0)
            def guard(b, n=n): 
                return self.branch(cmk("ge", ladd(ladd(n, b.fr[-1][ix].lin, -1), lconst(-1))), b)
            def body(b, q=q):
                o2 = []
                for c, x in self.at(q, b.fr[-1][ix].lin, b):
                    for d, ex in self.assign(s.target, x, c, m):
                        if ex is not None: o2.append((d, "exc", ex)); continue
                        for f, k, v in self.block(s.body, d, m):
                            if k in ("next", "cont"):
                                f.fr[-1][ix] = I(ladd(f.fr[-1][ix].lin, lconst(1))); k = "next"
                            o2.append((f, k, v))
                return o2
            for b, k, v in self.loop(a, guard, body, s, m):
                b.fr[-1].pop(ix, None); out.append((b, k, v))
        return out
    def loop(self, st, guard, body, s, m):
        self.loops += 1
        out = []; heads = []
        for a, t in guard(st):
            if isinstance(t, Exc): out.append((a, "exc", t))
            elif t: heads.append(a)
            else: out += self.block(s.orelse, a, m) if s.orelse else [(a, "next", None)]
        def run(x):
            """one iteration -> (states about to iterate again, states that leave)"""
            backs = []; ex = []
            for a, k, v in body(x):
                if self.on_back and k == "next": self.on_back(self, a)
                if k == "next":
                    for b, t in guard(a):
                        if isinstance(t, Exc): ex.append((b, "exc", t))
                        elif t: backs.append(b)
                        else: ex += self.block(s.orelse, b, m) if s.orelse else [(b, "next", None)]
                elif k == "brk": ex.append((a, "next", None))
                else: ex.append((a, k, v))
            return backs, ex
        for h in heads: out += self.loop_from(h, run, s, m)
        return out
    def bounded(self, s, h):
        """for loop over a short constant-length sequence: follow it iteration by iteration"""
        return isinstance(s, ast.For)
    def loop_from(self, h, run, s, m):
        # short loops with a fixed number of iterations are unrolled
        if isinstance(s, ast.For):
            ix = h.fr[-1].get("%%ix%d" % s.lineno)
            n = getattr(s, "_n", None)
        self.quiet += 1
        try:
            cur = h.fork(); ok = False; cnt = 0
            trial = [h.fork()]
            while cnt <= UNROLL:
                nb = []
                for x in trial:
                    b, e = run(x); nb += b
                cnt += 1
                if len(nb) > 6: break
                if not nb: ok = True; break
                trial = nb
                if cnt > 2 and not self.finite(s): break
        finally: self.quiet -= 1
        if ok:
            out = []; trial = [h]
            while trial:
                nb = []
                for x in trial:
                    b, e = run(x); nb += b; out += e
                trial = nb
            return out
        return Gen(self, h, run, s, m).solve()
    def finite(self, s): 
        return isinstance(s, ast.For)

def norm_bits(bits):
    out = []
    for x in bits:
        if x[0] == "c":
            if not x[1]: continue
            if out and out[-1][0] == "c": out[-1] = ("c", out[-1][1] + x[1]); continue
        else:
            if not x[3][1] and x[3][0] == 0: continue
            if out and out[-1][0] == "s" and out[-1][1] is x[1] and leq(ladd(out[-1][2], out[-1][3]), x[2]):
                out[-1] = ("s", x[1], out[-1][2], ladd(out[-1][3], x[3])); continue
        out.append(x)
    while out and out[0][0] == "c" and out[0][1] and out[0][1][0] == 0:
        r = out[0][1][1:]
        if r: out[0] = ("c", r)
        else: out.pop(0)
    return out

# ------------------------------------------------------------------ loop generalisation
class Slot:
    __slots__ = ("key", "e", "x", "nn")
    def __init__(self, key, e, nn): self.key = key; self.e = e; self.nn = nn; self.x = Sym("x_" + str(key[0][1] if len(key[0]) > 1 else key[0]), 0 if nn else -BIG, BIG)

def nullspace(rows, basis, m):
    """vectors of span(basis) annihilated by all rows"""
    for r in rows:
        vals = [sum((b[j] * r.get(j, 0) for j in range(m) if b[j]), Fraction(0)) for b in basis]
        k = next((i for i, v in enumerate(vals) if v), None)
        if k is None: continue
        bk, vk = basis[k], vals[k]
        nb = []
        for i, b in enumerate(basis):
            if i == k: continue
            if vals[i]:
                f = vals[i] / vk
                b = [x - f * y for x, y in zip(b, bk)]
            nb.append(b)
        basis = nb
    return basis

def rref(basis, m):
    rows = [list(b) for b in basis]; r = 0
    for c in range(m - 1, -1, -1):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None: continue
        rows[r], rows[p] = rows[p], rows[r]
        f = rows[r][c]; rows[r] = [x / f for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                g = rows[i][c]; rows[i] = [x - g * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return rows[:r]

LOOPDEP = {}
class Gen:
    def __init__(self, ip, s0, run, node, m):
        self.ip = ip; self.s0 = s0; self.run = run; self.node = node; self.m = m
        self.depv = {}           # location -> values it holds at loop heads, for taint questions
        self.slots = {}; self.sp = {}; self.alls = []; self.noall = set(); self.nosp = set(); self.worse = set(); self.variant = set()
    # locations
    def locs(self, st):
        out = {}
        for k, v in st.fr[-1].items():
            if k not in ("%fn", "%self"): out[("v", k)] = v
        for i, h in st.heap.items():
            if i not in self.s0.heap and st is not self.s0: continue
            if isinstance(h, Obj):
                for k, v in h.a.items(): out[("o", i, k)] = v
            elif isinstance(h, SeqO): out[("q", i)] = h.s
            elif isinstance(h, DictO):
                for k, (kk, v) in h.d.items(): out[("d", i, k)] = v
        for k, v in st.g.items(): out[("g", k)] = v
        return out
    def put(self, st, path, v):
        if path[0] == "v": st.fr[-1][path[1]] = v
        elif path[0] == "g": st.g[path[1]] = v
        elif path[0] == "o":
            h = st.heap[path[1]].copy(); h.a[path[2]] = v; st.heap[path[1]] = h
        elif path[0] == "q": st.heap[path[1]] = SeqO(v)
        elif path[0] == "d":
            h = st.heap[path[1]].copy(); k = h.d[path[2]][0] if path[2] in h.d else None
            if k is not None: h.d[path[2]] = (k, v)
            st.heap[path[1]] = h
    def slot(self, path, k, e, nn=False):
        key = (path, k)
        s = self.slots.get(key)
        if s is None: s = self.slots[key] = Slot(key, e, nn)
        s.e = e
        return s
    def tidy(self, pieces, st):
        out = []
        for x in pieces:
            if x[0] != "c":
                x = ("s", x[1], st.norm(x[2]), st.norm(x[3])) if x[0] == "s" else ("r", x[1], st.norm(x[2]))
                if st.zero(plen(x)):
                    if plen(x)[1]: st.add_eq(plen(x))
                    continue
            if out and out[-1][0] == "s" and x[0] == "s" and out[-1][1] is x[1] and st.zero(ladd(ladd(out[-1][2], out[-1][3]), x[2], -1)):
                out[-1] = ("s", x[1], out[-1][2], ladd(out[-1][3], x[3])); continue
            out.append(x)
        return norm_pieces(out)
    def old(self, v):
        """uses only symbols that exist at the loop entry"""
        if islin(v): return all(s.id <= self.base for s in v[1])
        return True
    # shapes
    def shape(self, path, v0, ps):
        """ps: [(state, value)] at back edges of a run"""
        if isinstance(v0, Undef) : return ("undef",)
        vs = [v for _, v in ps]
        if any(isinstance(v, Undef) for v in vs): return ("undef",)
        dv = self.depv.setdefault(path, [])
        for s, v in [(self.s0, v0)] + list(ps):
            if all(v is not x for x in dv): dv.append(self.ip.val(v, s))
        if path in self.worse: return ("any", v0)
        if all(v.key() == v0.key() for v in vs): return ("same", v0)
        if all(isinstance(v, I) for v in vs + [v0]):
            bv = [getattr(v, "bits", None) for v in vs + [v0]]
            if any(b and any(x[0] == "s" for x in b) for b in bv):
                bb = [self.ip.bitsof(v, None) for v in vs + [v0]]
                if all(b is not None for b in bb):
                    f = lambda b: [("c", [I(z) for z in p[1]]) if p[0] == "c" else p for p in b]
                    r = self.rope(path, f(bb[-1]), [(s, f(b)) for (s, _), b in zip(ps, bb)])
                    if r is not None: return ("bits", r)
            return ("int", self.slot(path, 0, v0.lin))
        st0 = self.s0
        q0 = self.ip.seq(v0, st0); qs = [self.ip.seq(v, s) for s, v in ps]
        if q0 is not None and all(q is not None for q in qs):
            kinds = {q.kind for q in qs + [q0]}
            wrap = None
            if any(isinstance(v, R) for v in vs + [v0]): wrap = "new"
            kind = q0.kind if len(kinds) == 1 else "bytes" if kinds <= {"bytes", "bytearray"} else None
            if kind is not None:
                if len(kinds) > 1: wrap = None
                r = self.rope(path, q0.p, [(s, q.p) for (s, _), q in zip(ps, qs)])
                if r is None:
                    src = src_of(("unk", id(self), path), "old contents", *((0, 255) if kind in ("bytes", "bytearray") else ()))
                    r = [("s", src, self.slot(path, "upos", lconst(0)), self.slot(path, "ulen", slen(q0), True))]
                    self.slots[(path, "upos")].e = lconst(0)
                    return ("unk", kind, r, wrap, q0.esz)
                return ("rope", kind, r, wrap, q0.esz)
        if all(isinstance(v, (B, K)) and (isinstance(v, B) or type(v.v) is bool) for v in vs + [v0]):
            return ("any", v0)
        return ("any", v0)
    def same_item(self, x, y):
        if x[0] != y[0]: return False
        if x[0] == "c": return [a.key() for a in x[1]] == [a.key() for a in y[1]]
        if x[0] == "s": return x[1] is y[1]
        return x[1].key() == y[1].key()
    def rope(self, path, p0, ps):
        sp = self.sp.get(path)
        p0 = self.tidy(p0, self.s0); qs = [self.tidy(p, s) for s, p in ps]
        # the longest list is the skeleton
        if sp is not None:
            sk = list(p0) + [sp]
            if sp[0] == "s" and p0 and p0[-1][0] == "s" and p0[-1][1] is sp[1]: sk = list(p0)
        else:
            sk = p0
            for q, (s, _) in zip(qs, ps):
                if self.align(sk, q, s) is not None: continue
                if self.align(q, sk, s) is not None: sk = q; continue
                sk = self.union(sk, q); self.variant.add(path)
        fin = []
        for n, x in enumerate(sk):
            if x[0] == "c":
                # constants of different lengths but one repeated value
                fin.append(("c", x[1])); continue
            fin.append(x)
        al0 = self.align(fin, p0, self.s0)
        if al0 is None: return None
        items = []
        for n, x in enumerate(fin):
            y = al0[n]
            if x[0] == "c":
                if y is None: return None
                items.append(("c", x[1])); continue
            if x[0] == "s":
                if y is not None: e1, e2 = y[2], y[3]
                else:
                    e1 = x[2]
                    if not self.old(e1): e1 = lconst(0)
                    e2 = lconst(0)
                items.append(("s", x[1], self.slot(path, (n, "p"), e1), self.slot(path, (n, "l"), e2, True)))
            else: items.append(("r", x[1], self.slot(path, (n, "l"), plen(y) if y is not None else lconst(0), True)))
        if path in self.variant:
            d = self.slot(path, "variant", lconst(0), True)
            items.append(("d", d, tuple(y is not None for y in al0)))
        if sp is None:
            for q, (s, _) in zip(qs, ps):
                if self.align(fin, q, s) is None: return None
        return items
    def union(self, a, b):
        """a list that both lists are subsequences of"""
        n, m = len(a), len(b); L = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                L[i][j] = L[i + 1][j + 1] + 1 if self.same_item(a[i], b[j]) else max(L[i + 1][j], L[i][j + 1])
        out = []; i = j = 0
        while i < n or j < m:
            if i < n and j < m and self.same_item(a[i], b[j]): out.append(b[j]); i += 1; j += 1
            elif j == m or (i < n and L[i + 1][j] >= L[i][j + 1]): out.append(a[i]); i += 1
            else: out.append(b[j]); j += 1
        return out
    def align(self, items, pieces, st, ends=None):
        """match pieces against skeleton items in order -> list of pieces or None per item; None if impossible"""
        out = [None] * len(items); k = 0
        for p in pieces:
            # a constant run may be the next elements of a map item or of a repeated item
            if p[0] == "c":
                n = k; hit = False
                while n < len(items):
                    it = items[n]
                    if it[0] == "c" and self.same_item(it, p): out[n] = p; k = n + 1; hit = True; break
                    if it[0] == "r" and all(v.key() == it[1].key() for v in p[1]):
                        out[n] = ("r", it[1], lconst(len(p[1]))) if out[n] is None else ("r", it[1], ladd(out[n][2], lconst(len(p[1])))); k = n; hit = True; break
                    if it[0] == "s" and it[1].val is not None:
                        cur = out[n]
                        pos = ladd(cur[2], cur[3]) if cur is not None else (ends or {}).get(n, lconst(0))
                        good = True; q = pos
                        for v in p[1]:
                            e = self.ip.elem(it[1], st.norm(q), st, "list")
                            if self.vkey(e, st) != self.vkey(v, st): good = False; break
                            q = ladd(q, lconst(1))
                        if good:
                            out[n] = ("s", it[1], cur[2] if cur is not None else pos, ladd(cur[3] if cur is not None else lconst(0), lconst(len(p[1])))); k = n; hit = True; break
                    n += 1
                if not hit: return None
                continue
            n = k
            while n < len(items) and not (items[n][0] == p[0] and self.same_item(items[n], p) and out[n] is None): n += 1
            if n == len(items): return None
            out[n] = p; k = n if p[0] == "s" and items[n][1].val is not None else n + (0 if p[0] == "r" else 1)
        return out
    def vkey(self, v, st):
        return show(st.vnorm(v)) if isinstance(v, (I, S, T)) else v.key()
    # instantiate
    def val(self, path, sh, G):
        if sh[0] == "same": return sh[1]
        if sh[0] == "undef": return Undef()
        if sh[0] == "any":
            y = Sym("any", 0, 0); LOOPDEP[y] = self.depv.get(path, [])
            t = T("any", K(repr(path)), I(lsym(y)))
            v0 = sh[1]
            if isinstance(v0, B) or (isinstance(v0, K) and type(v0.v) is bool): return B(("tt", t))
            return t
        if sh[0] == "int": LOOPDEP[sh[1].x] = self.depv.get(path, []); return I(lsym(sh[1].x))
        if sh[0] == "unk":
            for x in sh[2]: LOOPDEP[x[1]] = self.depv.get(path, [])
        if sh[0] == "sum": return I(ladd(sh[1], linsum(sh[2], sh[3], lsym(sh[4].x))))
        if sh[0] in ("rope", "unk", "bits"):
            r = sh[2] if sh[0] != "bits" else sh[1]
            ps = []
            for x in r:
                if x[0] == "c": ps.append(x)
                elif x[0] == "d": continue
                elif x[0] == "s": ps.append(("s", x[1], G.norm(lsym(x[2].x)), G.norm(lsym(x[3].x))))
                else: ps.append(("r", x[1], G.norm(lsym(x[2].x))))
            if sh[0] == "bits":
                return self.ip.bitval([("c", [z.lin[0] for z in p[1]]) if p[0] == "c" else p for p in ps])
            s = S(sh[1], ps, sh[4])
            if path[0] != "q" and sh[3] == "new": return self.ip.alloc(G, SeqO(s))
            return s
    def measure(self, path, sh, v, b):
        """values of the slots of a shape in state b, or None"""
        if sh[0] in ("same",): return {} if v.key() == sh[1].key() or (isinstance(v, I) and isinstance(sh[1], I) and b.zero(ladd(v.lin, sh[1].lin, -1))) else None
        if sh[0] in ("undef", "any"): return {}
        if sh[0] == "int": return {sh[1]: v.lin} if isinstance(v, I) else None
        if sh[0] == "sum":
            if not isinstance(v, I): return None
            y = lsym(sh[4].x)
            g = self.ip.elem(sh[2], y, b, "list").lin
            exp = ladd(ladd(sh[1], linsum(sh[2], sh[3], y)), g)
            return {} if b.zero(ladd(v.lin, exp, -1)) else None
        if sh[0] == "bits":
            bb = self.ip.bitsof(v, b)
            if bb is None: return None
            ps = [("c", [I(z) for z in p[1]]) if p[0] == "c" else p for p in bb]; items = sh[1]
        else:
            s = self.ip.seq(v, b)
            if s is None or (s.kind != sh[1] and not {s.kind, sh[1]} <= {"bytes", "bytearray"}): return None
            ps = s.p; items = sh[2]
            if sh[0] == "unk":
                return {items[0][2]: lconst(0), items[0][3]: slen(s)}
        ps = self.tidy(ps, b)
        var = [x for x in items if x[0] == "d"]; items = [x for x in items if x[0] != "d"]
        al = self.align(items, ps, b, {n: lsym(x[2].x) for n, x in enumerate(items) if x[0] == "s"})
        if al is None: return None
        out = {}
        for x in var:
            cur = {n: lsym(z[-1].x) for n, z in enumerate(items) if z[0] != "c"}
            if all((y is not None) == k for y, k in zip(al, x[2])): out[x[1]] = lconst(0)
            elif all(y is not None and z[0] != "c" and b.zero(ladd(plen(y), cur[n], -1)) or y is None and (z[0] == "c" or b.zero(cur[n])) for n, (y, z) in enumerate(zip(al, items))): out[x[1]] = lsym(x[1].x)
            else: out[x[1]] = lconst(1)
        for x, y in zip(items, al):
            if x[0] == "c":
                if y is None: return None
            elif x[0] == "s":
                out[x[2]] = y[2] if y is not None else None; out[x[3]] = y[3] if y is not None else lconst(0)
            else: out[x[2]] = plen(y) if y is not None else lconst(0)
        return out
    # driver
    def solve(self):
        ip = self.ip
        self.base = Sym("mark", 0, 0).id
        ip.quiet += 1
        try:
            l0 = self.locs(self.s0)
            backs, _ = self.run(self.s0.fork())
            if not backs:
                pass
            else:
                self.l0 = l0
                self.shapes = {}
                self.reshape(backs, l0)
                G = self.stable()
                if G is None: return []
                if self.detect(G):
                    G = self.stable()
        finally: ip.quiet -= 1
        if not backs: return self.run(self.s0)[1]
        G, _ = self.build()
        if G is None: return []
        return self.runs(G)[1]
    def runs(self, G):
        """one iteration from the invariant, separately for each combination of rope shapes"""
        gs = [G]
        for path in sorted(self.variant, key=repr):
            sh = self.shapes.get(path)
            d = next((x[1] for x in (sh[2] if sh[0] == "rope" else ()) if x[0] == "d"), None) if sh else None
            if d is None or len(gs) > 4: continue
            out = []
            for g in gs:
                lo, hi = g.rng(lsym(d.x))
                if hi - lo > 3: out.append(g); continue
                for v in range(lo, hi + 1):
                    h = g.fork()
                    if h.add_eq(ladd(lsym(d.x), lconst(-v))): out.append(h)
            gs = out
        b = []; e = []
        for g in gs:
            for path, sh in self.shapes.items():
                if path in self.variant:
                    s = self.ip.seq(self.get(g, path), g)
                    if s is not None and isinstance(self.get(g, path), S) or path[0] == "q": self.put(g, path, S(s.kind, self.tidy(s.p, g), s.esz))
            x, y = self.run(g); b += x; e += y
        return b, e
    def reshape(self, backs, l0):
        for path, v0 in l0.items():
            ps = []
            for b in backs:
                v = self.get(b, path)
                ps.append((b, v))
            sh = self.shape(path, v0, ps)
            o = self.shapes.get(path)
            if o is None or o[0] == "same": self.shapes[path] = sh
    def get(self, b, path):
        try:
            if path[0] == "v": return b.fr[-1].get(path[1]) or Undef()
            if path[0] == "g": return b.g.get(path[1]) or Undef()
            if path[0] == "o": return b.heap[path[1]].a.get(path[2]) or Undef()
            if path[0] == "q": return b.heap[path[1]].s
            if path[0] == "d":
                return b.heap[path[1]].d[path[2]][1]
        except KeyError: return Undef()
    def active(self):
        out = []; seen = set()
        def add(s):
            if id(s) not in seen: seen.add(id(s)); out.append(s)
        for sh in self.shapes.values():
            if sh[0] == "int": add(sh[1])
            elif sh[0] in ("rope", "unk", "bits"):
                for x in (sh[2] if sh[0] != "bits" else sh[1]):
                    if x[0] == "s": add(x[2]); add(x[3])
                    elif x[0] == "r": add(x[2])
                    elif x[0] == "d": add(x[1])
        return out
    def candidates(self):
        """inequalities over slots that hold on entry"""
        act = self.active(); s0 = self.s0; c = []
        params = []
        seen = set()
        def par(l):
            l = s0.norm(l)
            k = lkey(l)
            if l[1] and k not in seen and len(l[1]) <= 3 and self.old(l): seen.add(k); params.append(l)
        for path, sh in self.shapes.items():
            if sh[0] == "same":
                v = sh[1]
                if isinstance(v, I) and path[0] != "d": par(v.lin)
                q = v if isinstance(v, S) else None
                if q is not None and path[0] != "d": par(slen(q))
        for s in act: par(s.e)
        if len(params) > 14: params = params[:14]
        consts = set(self.consts())
        for v in s0.fr[-1].values():
            if isinstance(v, (I, S)):
                l = s0.norm(v.lin) if isinstance(v, I) else s0.norm(slen(v)) if isinstance(v, S) else None
                if l is not None and not l[1] and 1 < l[0] < 5000 and len(consts) < 28: consts |= {l[0], l[0] - 1}
        for s in act:
            x = lsym(s.x)
            c.append((x, s.e)) if False else None
            c.append(ladd(x, s.e, -1)); c.append(ladd(s.e, x, -1))
            c.append(x)
            for k in consts:
                c.append(ladd(lconst(k), x, -1)); c.append(ladd(x, lconst(-k)))
            for p in params:
                for d in (0, -1):
                    c.append(ladd(ladd(p, x, -1), lconst(d)))
                c.append(ladd(x, p, -1))
        for i, s in enumerate(act):
            for t in act[i + 1:]:
                d = ladd(lsym(s.x), lsym(t.x), -1); e = s0.norm(ladd(s.e, t.e, -1))
                offs = {0}
                if not e[1]: offs.add(e[0])
                for o in offs:
                    c.append(ladd(d, lconst(-o))); c.append(ladd(lscale(d, -1), lconst(o)))
                for p in params[:6]:
                    c.append(ladd(p, ladd(lsym(s.x), lsym(t.x)), -1))
        # what the entry knows about the initial value of a slot (the loop condition, for instance)
        bd = [b for s, v in s0.n.sb.items() if s not in s0.eq for b in (((-v[0], {s: 1}),) if v[0] > -BIG else ()) + (((v[1], {s: -1}),) if v[1] < BIG else ())]
        for s in act:
            e = s0.norm(s.e)
            if not e[1]: continue
            t0, k0 = next(iter(e[1].items()))
            for f in s0.n.facts + (bd if len(e[1]) == 1 else []):
                k = f[1].get(t0, 0)
                if not k or k % k0: continue
                k //= k0; r = ladd(f, e, -k)
                if not r[1]: c.append(ladd(r, lsym(s.x), k))
        m = {s.x: s.e for s in act}
        out = []
        seenc = set()
        for l in c:
            k = lkey(l)
            if k in seenc: continue
            seenc.add(k)
            if s0.prove(lsubst(l, m)): out.append(l)
        return out
    def consts(self):
        r = getattr(self.node, "_consts", None)
        if r is None:
            r = {0, 1}
            fn = self.s0.fr[-1].get("%fn")
            for n in ast.walk(fn.node if fn else self.node):
                if isinstance(n, ast.Constant) and type(n.value) is int and 1 < n.value < 5000: r.add(n.value)
            for v in self.m.env.values():
                if isinstance(v, I) and not v.lin[1] and 1 < v.lin[0] < 5000: r.add(v.lin[0])
            r = set(sorted(r)[:14])
            self.node._consts = r
        return r
    def build(self):
        G = self.s0.fork()
        act = self.active()
        idx = {id(s): i for i, s in enumerate(act)}
        self.act = act
        m = len(act)
        for b in rref(self.V, m) if self.V is not None and len(self.V) and len(self.V[0]) == m else []:
            den = 1
            for x in b:
                if x: den = den * x.denominator // _gcd(den, x.denominator)
            l = (0, {})
            for j, x in enumerate(b):
                if x: l = ladd(l, ladd(lsym(act[j].x), act[j].e, -1), int(x * den))
            if not G.add_eq(l): return None, act
        for l in self.cand:
            if not G.n.add_fact(G.norm(l)): return None, act
        # pairs of opposite inequalities are equations
        for path, sh in self.shapes.items():
            if sh[0] != "same": self.put(G, path, self.val(path, sh, G))
        for (c, ix, lo, s, up) in self.alls:
            G.pc.append(("all", c, ix, lo, lsym(s.x)) if up else ("all", c, ix, ladd(lsym(s.x), lconst(1)), ladd(lo, lconst(1))))
        return G, act
    def stable(self):
        ip = self.ip
        self.V = None; self.cand = None
        for rnd in range(40):
            ip.loop_rounds += 1
            act = self.active(); m = len(act)
            if self.V is None or len(self.actk) != m or self.actk != [id(s) for s in act]:
                # start: every equation, filtered by one run from the entry
                self.actk = [id(s) for s in act]
                self.V = [[Fraction(int(i == j)) for j in range(m)] for i in range(m)]
                b0, _ = self.run(self.s0.fork())
                ok = self.check(b0, act, entry=True)
                if not ok: self.V = None; continue
                self.cand = self.candidates()
            G, act = self.build()
            if G is None: return None      # x = e satisfies every equation and inequality: the entry itself is infeasible
            backs, _ = self.runs(G)
            self.backs = backs
            r = self.check(backs, act)
            if r is True: return G
            if r is False: self.V = None
        raise Unsup("no loop invariant at %s:%d" % (self.m.name, self.node.lineno))
    def check(self, backs, act, entry=False):
        """True: inductive; None: weakened, try again; False: shapes changed"""
        m = len(act); pos = {id(s): j for j, s in enumerate(act)}
        rows = []; meas = []; changed = False
        if not entry: backs = [b for b in backs if b.close()]
        for b in backs:
            got = {}
            for path, sh in list(self.shapes.items()):
                v = self.get(b, path)
                r = self.measure(path, sh, v, b) if not (entry and sh[0] == "sum") else {}
                if r is None:
                    if sh[0] == "sum": self.nosp.add(path); self.shapes[path] = ("int", self.slot(path, 0, self.l0[path].lin))
                    elif path in self.sp: self.nosp.add(path); del self.sp[path]; self.shapes[path] = self.shape(path, self.l0[path], [(x, self.get(x, path)) for x in backs])
                    elif sh[0] == "same": self.shapes[path] = self.shape(path, self.l0[path], [(x, self.get(x, path)) for x in backs])
                    else:
                        n = self.shape(path, self.l0[path], [(x, self.get(x, path)) for x in backs])
                        if n[0] == sh[0] and n[0] not in ("unk",):
                            q0 = self.ip.seq(self.l0[path], self.s0)
                            if q0 is not None and sh[0] == "rope":
                                src = src_of(("unk", id(self), path), "old contents", *((0, 255) if q0.kind in ("bytes", "bytearray") else ()))
                                n = ("unk", sh[1], [("s", src, self.slot(path, "upos", lconst(0)), self.slot(path, "ulen", slen(q0), True))], sh[3], sh[4])
                            elif sh[0] == "bits": n = ("int", self.slot(path, 0, self.l0[path].lin))
                            else: self.worse.add(path); n = ("any", self.l0[path])
                        elif sh[0] in ("unk", "int"): self.worse.add(path); n = ("any", self.l0[path])
                        self.shapes[path] = n
                    changed = True; continue
                got.update({id(k): x for k, x in r.items()})
            meas.append((b, got))
        if changed: return False
        # the place of an empty piece is arbitrary: chosen so that an equation holds, after the others are filtered
        meas.sort(key=lambda z: sum(x is None for x in z[1].values()))
        basis = None
        for b, got in meas:
            for s in act:
                if id(s) not in got: raise Unsup("slot without value")
            free = [j for j, s in enumerate(act) if got[id(s)] is None]
            if free and not entry:
                if basis is None: basis = nullspace(rows, self.V, m)
                for v in (rref(basis, m) if basis else ()):
                    js = [j for j in free if v[j] and got[id(act[j])] is None]
                    if len(js) != 1: continue
                    j = js[0]; l = act[j].e; ok = True
                    for i, s in enumerate(act):
                        if i == j or not v[i]: continue
                        r = -v[i] / v[j]
                        if r.denominator != 1: ok = False; break
                        l = ladd(l, ladd(got[id(s)], s.e, -1), int(r))
                    if ok: got[id(act[j])] = b.norm(l)
            for j in free:
                if got[id(act[j])] is None: got[id(act[j])] = lsym(act[j].x)
            if entry:
                en = {s.x: s.e for s in act}
                got = {k: lsubst(v, en) for k, v in got.items()}
            D = [b.norm(ladd(got[id(s)], s.e if entry else lsym(s.x), -1)) for s in act]
            syms = {}
            fx = {t: v[0] for t, v in b.n.sb.items() if v[0] == v[1]}
            for j, d in enumerate(D):
                for t in d[1]:
                    if t in fx: d = (d[0] + d[1][t] * fx[t], {u: k for u, k in d[1].items() if u is not t})
                if d[0]: syms.setdefault(None, {})[j] = d[0]
                for t, k in d[1].items(): syms.setdefault(t, {})[j] = k
            rows += list(syms.values())
        V2 = nullspace(rows, self.V, m)
        weaker = len(V2) != len(self.V)
        if weaker and not entry:
            # equations that hold by facts rather than syntactically
            pass
        self.V = V2
        if entry: return True
        mm = {s.x: None for s in act}
        keep = []
        for l in self.cand:
            ok = True
            for b, got in meas:
                sm = {s.x: got[id(s)] for s in act}
                if not b.prove(lsubst(l, sm)): ok = False; break
            if ok: keep.append(l)
            else: weaker = True
        self.cand = keep
        ka = []
        for t in self.alls:
            c, ix, lo, s, up = t
            if all(any(b.dec(csub(c, {ix: p}, self.ip)) is True for p in (lsym(s.x), b.norm(lsym(s.x)))) for b, _ in meas): ka.append(t)
            else: weaker = True; self.noall.add(cshow(c, {ix: "."}))
        self.alls = ka
        self.meas = meas
        return True if not weaker else None
    def detect(self, G):
        """element-wise summaries: sums, maps, universally quantified conditions"""
        found = False
        if not self.backs: return False
        act = self.active(); meas = self.meas
        one = []; down = []
        for s in act:
            if all(b.zero(ladd(ladd(got[id(s)], lsym(s.x), -1), lconst(-1))) for b, got in meas): one.append(s)
            elif all(b.zero(ladd(ladd(got[id(s)], lsym(s.x), -1), lconst(1))) for b, got in meas): down.append(s)
        xs = {s.x for s in act}
        byx = {s.x: s for s in one}
        def index_of(v):
            """the counting slot a value depends on"""
            h = [s for s in act if has(v, {s.x})]
            if len(h) == 1 and h[0].x in byx: return h[0]
            return None
        for path, sh in list(self.shapes.items()):
            if path in self.nosp: continue
            if sh[0] == "int" and sh[1] not in one:
                ds = [b.norm(ladd(got[id(sh[1])], lsym(sh[1].x), -1)) for b, got in meas]
                if all(leq(d, ds[0]) for d in ds):
                    y = index_of(ds[0])
                    if y is not None and y is not sh[1]:
                        ix = Sym("ix", 0, BIG)
                        self.shapes[path] = ("sum", self.l0[path].lin, map_src(I(sub(ds[0], {y.x: lsym(ix)}, self.ip)), ix), y.e, y); found = True
            elif sh[0] == "unk":
                cand = None
                for b, got in meas:
                    q = self.ip.seq(self.get(b, path), b)
                    ps = self.tidy(q.p, b) if q is not None else []
                    v = None
                    if ps and ps[-1][0] == "c" and len(ps[-1][1]) == 1 and len(ps) == 2: v = ps[-1][1][0]
                    elif len(ps) == 1 and ps[-1][0] == "c" and len(ps[-1][1]) == 1: v = ps[-1][1][0]
                    if v is None or (cand is not None and self.vkey(v, b) != cand[1]): cand = None; break
                    cand = (b.vnorm(v), self.vkey(v, b))
                if cand is not None:
                    y = index_of(cand[0])
                    if y is not None and isinstance(cand[0], (I, S, T)):
                        ix = Sym("ix", 0, BIG)
                        src = map_src(sub(cand[0], {y.x: lsym(ix)}, self.ip), ix)
                        self.sp[path] = ("s", src, y.e, lconst(0))
                        q0 = self.ip.seq(self.l0[path], self.s0)
                        r = self.rope(path, q0.p, [])
                        if r is not None:
                            w = sh[3]
                            self.shapes[path] = ("rope", q0.kind, r, w, q0.esz); found = True
        if meas:
            base = {str(ckey(c)) for c in self.s0.pc}
            sets = []
            for b, got in meas:
                sets.append({cshow(c): c for c in b.pc if str(ckey(c)) not in base and c[0] not in ("all", "nall")})
            for k, c in sets[0].items():
                if not all(k in t for t in sets[1:]): continue
                y = index_of(c[1])
                if y is None:
                    h = [s for s in act if has(c[1], {s.x})]
                    y = h[0] if len(h) == 1 and h[0] in down else None
                if y is None: continue
                ix = Sym("ix", -1, BIG)
                cc = csub(c, {y.x: lsym(ix)}, self.ip)
                if cshow(cc, {ix: "."}) in self.noall: continue
                self.alls.append((cc, ix, y.e, y, y not in down)); found = True
        return found

def _gcd(a, b):
    while b: a, b = b, a % b
    return a

# ------------------------------------------------------------------ builtins
BUILTINS = {"len", "range", "int", "str", "bytes", "bytearray", "list", "tuple", "dict", "set", "min", "max", "abs", "sum", "all", "any", "print", "enumerate", "zip", "bin", "hex", "format",
            "isinstance", "round", "sorted", "reversed", "open", "super", "object", "ValueError", "IndexError", "TypeError", "KeyError", "Exception", "AssertionError", "RuntimeError", "float", "bool",
            "map", "filter", "repr", "type", "getattr", "setattr", "hasattr", "ord", "chr", "divmod", "pow", "NotImplementedError", "OverflowError", "ZeroDivisionError", "__name__", "staticmethod", "classmethod", "property", "callable", "iter", "next", "input", "exit", "complex", "memoryview", "id", "vars"}
def b_len(ip, st, a, kw):
    s = ip.seq(a[0], st)
    if s is not None: return [(st, I(st.norm(slen(s))))]
    if isinstance(a[0], R) and isinstance(st.heap.get(a[0].i), DictO): return [(st, I(len(st.heap[a[0].i].d)))]
    if isinstance(a[0], T): return [(st, I(ip.vlen(a[0], st)))]
    return [(st, Exc("TypeError", ip.where))]
_rix = Sym("rix", -BIG, BIG)
def b_range(ip, st, a, kw):
    ls = [lin_of(x) for x in a]
    if any(l is None for l in ls): raise Unsup("range of %r" % (a,))
    lo, hi, step = (lconst(0), ls[0], 1) if len(ls) == 1 else (ls[0], ls[1], 1) if len(ls) == 2 else (ls[0], ls[1], ls[2][0] if not ls[2][1] else None)
    if step is None or step == 0: raise Unsup("range step")
    out = []
    n = ladd(hi, lo, -1) if step > 0 else ladd(lo, hi, -1); k = abs(step)
    for s, ok in ip.branch(cmk("ge", n), st):
        if not ok: out.append((s, S("range", []))); continue
        c = n if k == 1 else ip.div(ladd(n, lconst(k - 1)), k, s)
        if step == 1: out.append((s, S("range", [("s", map_src(I(lsym(_rix)), _rix), s.norm(lo), s.norm(c))])))
        else: out.append((s, S("range", [("s", map_src(I(ladd(lo, lsym(_rix), step)), _rix), lconst(0), s.norm(c))])))
    return out
def b_int(ip, st, a, kw):
    if not a: return [(st, I(0))]
    v = a[0]; s = ip.seq(v, st)
    if s is not None and s.kind == "str":
        base = const(a[1]) if len(a) > 1 else const(kw["base"]) if "base" in kw else 10
        t = strval(s)
        if t is not None:
            try: return [(st, I(int(t, base)))]
            except ValueError: return [(st, Exc("ValueError", ip.where))]
        if base == 2:
            bits = []
            for p in s.p:
                if p[0] == "s" and p[1].kind == "bit": bits.append(p)
                elif p[0] == "c" and all(isinstance(x, K) and x.v in "01" for x in p[1]): bits.append(("c", [int(x.v) for x in p[1]]))
                elif p[0] == "r" and isinstance(p[1], K) and p[1].v in "01" and not p[2][1]: bits.append(("c", [int(p[1].v)] * p[2][0]))
                else: return None
            out = []
            for x, ok in ip.branch(cmk("ge", ladd(slen(s), lconst(-1))), st):
                out.append((x, ip.bitval(bits)) if ok else (x, Exc("ValueError", ip.where)))
            return out
        return [(st, T("int", s, *a[1:]))]
    if isint(v): return [(st, I(lin_of(v)))]
    if isinstance(v, B): 
        return [(x, I(1 if t else 0)) for x, t in ip.branch(v.c, st)]
    if isinstance(v, K) and isinstance(v.v, float): return [(st, I(int(v.v)))]
    return [(st, T("int", v, *a[1:]))]
def mkseq(kind):
    def f(ip, st, a, kw):
        if not a: return [(st, ip.mk(st, kind, []))]
        v = a[0]; s = ip.seq(v, st)
        if s is not None:
            if kind in ("list", "tuple") and s.kind == "str" : return [(st, ip.mk(st, kind, s.p))]
            return [(st, ip.mk(st, kind, s.p))]
        l = lin_of(v)
        if l is not None and kind in ("bytes", "bytearray"): return [(st, ip.mk(st, kind, [("r", I(0), l)]))]
        if isinstance(v, T): return [(st, ip.mk(st, kind, [("s", ip.src_term(v, *((0, 255) if kind in ("bytes", "bytearray") else ())), lconst(0), ip.vlen(v, st))]))]
        return None
    return f
def b_minmax(isMin):
    def f(ip, st, a, kw):
        if len(a) == 1:
            s = ip.seq(a[0], st)
            if s is None or not all(p[0] == "c" for p in s.p) or slen(s)[0] == 0: return None
            a = [x for p in s.p for x in p[1]]
        if any(lin_of(x) is None for x in a): return None
        cur = [(st, a[0])]
        for y in a[1:]:
            n = []
            for s, x in cur:
                d = ladd(lin_of(y), lin_of(x), -1)
                for s2, t in ip.branch(cmk("ge", d), s): n.append((s2, (x if t else y) if isMin else (y if t else x)))
            cur = n
        return cur
    return f
def b_abs(ip, st, a, kw):
    l = lin_of(a[0])
    if l is None: return None
    if ip.comp and st.dec(cmk("ge", l)) is None: return [(st, I(lsym(term("abs", (st.norm(l),), 0, BIG))))]
    return [(s, I(l if t else lscale(l, -1))) for s, t in ip.branch(cmk("ge", l), st)]
def b_sum(ip, st, a, kw):
    s = ip.seq(a[0], st)
    if s is None: return None
    tot = lin_of(a[1]) if len(a) > 1 else lconst(0)
    if tot is None: return None
    for p in s.p:
        if p[0] == "c":
            for x in p[1]:
                if lin_of(x) is None: return None
                tot = ladd(tot, lin_of(x))
        elif p[0] == "r": tot = ladd(tot, ip.mul(lin_of(p[1]), p[2], st))
        else: tot = ladd(tot, sumterm(p[1], p[2], ladd(p[2], p[3]), st))
    return [(st, I(tot))]
def linsum(src, lo, hi):
    "sum of the elements lo..hi-1: split along the linear form of an element"
    v = src.val
    if isinstance(v, I) and src.ix is not None and v.lin[1] and all(has(lsym(t), {src.ix}) and t is not src.ix for t in v.lin[1]):
        out = lscale(ladd(hi, lo, -1), v.lin[0])
        for t, k in v.lin[1].items(): out = ladd(out, lsym(term("sum", (map_src(I(lsym(t)), src.ix), lo, hi))), k)
        return out
    return lsym(term("sum", (src, lo, hi)))
def sumterm(src, lo, hi, st): return linsum(src, st.norm(lo), st.norm(hi))
def b_all(neg):
    def f(ip, st, a, kw):
        s = ip.seq(a[0], st)
        if s is None: return None
        cs = []
        for p in s.p:
            if p[0] == "c": cs += [ip.truth(x, st) for x in p[1]]
            elif p[0] == "r": cs.append(("or", cmk("ge", lscale(p[2], -1)), ip.truth(p[1], st)) if not neg else ("and", cmk("ge", ladd(p[2], lconst(-1))), ip.truth(p[1], st)))
            else:
                ix = p[1].ix if p[1].val is not None else None
                if ix is None:
                    ix = Sym("ix", 0, BIG); v = ip.elem(p[1], lsym(ix), st, s.kind)
                else: v = p[1].val
                c = ip.truth(v, st)
                cs.append(("all", c, ix, st.norm(p[2]), st.norm(ladd(p[2], p[3]))) if not neg else ("nall", cnot(c), ix, st.norm(p[2]), st.norm(ladd(p[2], p[3]))))
        cs = [c for c in cs if c[0] != ("T" if not neg else "F")]
        if not cs: return [(st, FALSE if neg else TRUE)]
        return [(st, B(cs[0] if len(cs) == 1 else ("or" if neg else "and",) + tuple(cs)))]
    return f
def b_print(ip, st, a, kw): return [(st, NONE)]
def b_enum(ip, st, a, kw):
    s = ip.iterable(a[0], st); ps = []; off = lin_of(a[1]) if len(a) > 1 else lconst(0)
    for p in s.p:
        if p[0] == "c":
            for x in p[1]: ps.append(("c", [S("tuple", [("c", [I(off), x])])])); off = ladd(off, lconst(1))
        else:
            ix = Sym("ix", 0, BIG)
            el = p[1] if p[0] == "r" else ip.elem(p[1], ladd(p[2], lsym(ix)), st, s.kind)
            ps.append(("s", map_src(S("tuple", [("c", [I(ladd(off, lsym(ix))), el])]), ix), lconst(0), plen(p))); off = ladd(off, plen(p))
    return [(st, S("list", ps))]
def b_zip(ip, st, a, kw):
    ss = [ip.iterable(x, st) for x in a]
    if all(len(s.p) == 1 for s in ss) and not all(s.p[0][0] == "c" for s in ss):
        n = plen(ss[0].p[0]); out = []
        if not all(st.zero(ladd(plen(s.p[0]), n, -1)) for s in ss): raise Unsup("zip of different lengths")
        ix = Sym("ix", 0, BIG)
        if any(s.p[0][0] == "c" for s in ss): raise Unsup("zip")
        els = [s.p[0][1] if s.p[0][0] == "r" else ip.elem(s.p[0][1], ladd(s.p[0][2], lsym(ix)), st, s.kind) for s in ss]
        return [(st, S("list", [("s", map_src(S("tuple", [("c", els)]), ix), lconst(0), n)]))]
    if all(all(p[0] == "c" for p in s.p) for s in ss):
        ls = [[x for p in s.p for x in p[1]] for s in ss]
        return [(st, S("list", [("c", [S("tuple", [("c", list(t))]) for t in zip(*ls)])]))]
    raise Unsup("zip")
def b_bin(ip, st, a, kw):
    c = const(a[0])
    if isinstance(c, int): return [(st, lit(bin(c)))]
    b = ip.bitsof(a[0], st)
    if b is None or not b or b[0][0] != "c" or b[0][1][0] != 1: return None
    ps = [("c", [K("0"), K("b")])] + [("c", [K(str(z)) for z in p[1]]) if p[0] == "c" else p for p in b]
    return [(st, S("str", ps))]
def b_format(ip, st, a, kw):
    c = const(a[0]); f = strval(a[1]) if len(a) > 1 else None
    if isinstance(c, int) and f is not None: return [(st, lit(format(c, f)))]
    b = ip.bitsof(a[0], st); pre = []
    if f in ("08b", "#010b") and b is not None and getattr(a[0], "bits", None) is not None:
        n = ip.blen(b)
        if not n[1] and n[0] <= 8:
            ps = [("c", [K("0")] * (8 - n[0]))] + [("c", [K(str(z)) for z in p[1]]) if p[0] == "c" else p for p in b]
            return [(st, S("str", ([("c", [K("0"), K("b")])] if f[0] == "#" else []) + ps))]
    return None
def b_isinstance(ip, st, a, kw):
    s = ip.seq(a[0], st); n = a[1].name.split(".")[-1] if isinstance(a[1], Ext) else None
    if n and s is not None: return [(st, K(s.kind == n))]
    if n and isint(a[0]): return [(st, K(n == "int" or n == "bool" and isinstance(a[0], K)))]
    return None
def b_round(ip, st, a, kw): return None
def b_str(ip, st, a, kw):
    if not a: return [(st, S("str", []))]
    if isinstance(a[0], S) and a[0].kind == "str": return [(st, a[0])]
    return [(st, T("str", ip.val(a[0], st)))]
def b_frombytes(ip, st, a, kw):
    s = ip.seq(a[0], st)
    order = strval(a[1]) if len(a) > 1 else strval(kw["byteorder"]) if "byteorder" in kw else "big"
    if s is None or order not in ("big", "little"): return None
    if order == "big" and all(p[0] == "c" and all(isinstance(x, I) for x in p[1]) or p[0] == "s" for p in s.p):
        bits = []
        for p in s.p:
            if p[0] == "s" and (p[1].lo, p[1].hi) == (0, 255) and p[1].val is None: bits.append(("s", bits_of(p[1]), lscale(p[2], 8), lscale(p[3], 8)))
            elif p[0] == "c" and all(not x.lin[1] for x in p[1]): bits.append(("c", [int(c) for x in p[1] for c in format(x.lin[0], "08b")]))
            else: return [(st, I(lsym(term("beint", (ip.val(s, st),), 0, BIG))))]
        return [(st, ip.bitval(bits))]
    return [(st, I(lsym(term(order[0] + "eint", (ip.val(s, st),), 0, BIG))))]
def b_reversed(ip, st, a, kw):
    s = ip.iterable(a[0], st)
    if all(p[0] == "c" for p in s.p): return [(st, S("list", [("c", [x for p in s.p for x in p[1]][::-1])]))]
    if len(s.p) == 1 and s.p[0][0] == "s":
        p = s.p[0]; ix = Sym("ix", 0, BIG)
        el = ip.elem(p[1], ladd(ladd(ladd(p[2], p[3]), lconst(-1)), lsym(ix), -1), st, s.kind)
        return [(st, S("list", [("s", map_src(el, ix), lconst(0), p[3])]))]
    raise Unsup("reversed")
def s_pack(ip, st, a, kw):
    f = strval(a[0])
    if f in (">Q", ">I", "<Q", ">H") and len(a) == 2 and isint(a[1]):
        k = {"Q": 8, "I": 4, "H": 2}[f[1]]
        return ip.to_bytes(I(lin_of(a[1])), lconst(k), "big" if f[0] == ">" else "little", st)
    return None
BUILTIN_FNS = {"builtins." + k: v for k, v in {"len": b_len, "range": b_range, "int": b_int, "bytes": mkseq("bytes"), "bytearray": mkseq("bytearray"), "list": mkseq("list"), "tuple": mkseq("tuple"),
    "min": b_minmax(True), "max": b_minmax(False), "abs": b_abs, "sum": b_sum, "all": b_all(False), "any": b_all(True), "print": b_print, "enumerate": b_enum, "zip": b_zip, "bin": b_bin,
    "format": b_format, "isinstance": b_isinstance, "str": b_str, "reversed": b_reversed, "int.from_bytes": b_frombytes, "memoryview": mkseq("bytes")}.items()}
BUILTIN_FNS["struct.pack"] = s_pack
