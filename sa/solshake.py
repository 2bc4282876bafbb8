"""Solidity machine whose words may be algebraic normal forms over Keccak lanes (sa/anf.py)."""
from . import anf
from .sol import *
from .sol import AT, P, W, Machine

def runs(k):
    "contiguous runs of a mask: (position, width)"
    p = 0
    while k:
        z = (k & -k).bit_length() - 1; k >>= z; p += z
        w = (~k & (k + 1)).bit_length() - 1
        yield p, w
        k >>= w; p += w
def anfword(v):
    v = anf.cut()(v)
    if not v: return 0
    if len(v) == 1 and anf.ONE in v: return v[anf.ONE]
    seen = 0; plain = True
    for m, k in v.items():
        if len(m) > 1 or seen & k or any(not isinstance(x, int) for x, s in m): plain = False; break
        seen |= k
    if plain:
        t = v.get(anf.ONE, 0)
        for m, k in v.items():
            for x, s in m:
                for p, w in runs(k): t = add(t, mul(bits(x, p - s, w), 1 << p))
        return t
    top = 0
    for k in v.values(): top |= k
    return P({(AT.get("anf", anf.key(v), 0, (1 << top.bit_length()) - 1),): 1})
def formof(v):
    if isinstance(v, int): return anf.const(v)
    f = bitfields(v)
    if f is None: return None
    out = {}
    for p, w, a, c in f:
        mask = ((1 << w) - 1) << p
        if a is None: x = anf.const(c << p)
        else:
            o, args = AT.a[a][:2]
            if o == "anf": x = anf.shl(dict(args), p)
            elif o == "bits" and AT.a[args[0]][0] == "anf":
                x = anf.and_(anf.shl(anf.shr(dict(AT.a[args[0]][1]), args[1]), p), anf.const(mask))
            elif o == "bits": x = {frozenset([(args[0], p - args[1])]): mask}
            else: x = {frozenset([(a, p)]): mask}
        out = anf.xor(out, x)
    return out
def isform(v): return isinstance(v, P) and any(AT.a[a][0] == "anf" or AT.a[a][0] == "bits" and AT.a[AT.a[a][1][0]][0] == "anf" for m in v.t for a in m)
def same(a, b):
    x, y = formof(a), formof(b)
    return x is not None and y is not None and x == y

class Keccak(Machine):
    def op2(self, st, o, a, b):
        if o in ("and", "or", "xor") and (isinstance(a, P) or isinstance(b, P)):
            if not (isform(a) or isform(b)):
                v = Machine.op2(self, st, o, a, b)
                if not (isinstance(v, P) and len(v.t) == 1 and AT.a[next(iter(v.t))[0]][0] in ("and", "or", "xor")): return v
            x, y = formof(a), formof(b)
            if x is None or y is None: return Machine.op2(self, st, o, a, b)
            return anfword({"and": anf.and_, "or": anf.or_, "xor": anf.xor}[o](x, y))
        if isform(a) or isform(b):
            if o == "add":
                x, y = formof(a), formof(b)
                if x is not None and y is not None and anf.disjoint(x, y): return anfword(anf.xor(x, y))
                raise Unsup("sum of words that share bits")
            if o in ("shl", "shr") and isinstance(a, int):
                x = formof(b)
                return 0 if a >= 256 else anfword(anf.shl(x, a) if o == "shl" else anf.shr(x, a))
            if o == "mul" and (isinstance(a, int) or isinstance(b, int)):
                k, x = (a, b) if isinstance(a, int) else (b, a)
                if k and k & (k - 1) == 0: return anfword(anf.shl(formof(x), k.bit_length() - 1))
            if o == "sub" and isinstance(a, int) and a + 1 & a == 0:
                x = formof(b); top = 0
                for k in x.values(): top |= k
                if top & ~a == 0: return anfword(anf.xor(x, anf.const(a)))
            if o in ("shl", "shr", "sub", "mul"): raise Unsup("operation %s on lanes" % o)
        return Machine.op2(self, st, o, a, b)
