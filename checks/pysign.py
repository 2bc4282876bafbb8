"""Python reference: hashing objects' typestate, verifiers, recovery and signers (Y01, Y02, Y04, Y07)."""
import os
from sa.py import *
from sa.py import St, Ip, Src, S, I, K, R, T, B, V, Fn, Cls, Bound, Ext, Exc, Undef, Obj, SeqO, NONE, TRUE, FALSE, const, strval, slen, src_of, lin_of, cmk, cshow, show, term, islin, DEF, csub, Unsup, Mod, lsym, Sym, Gen, BIG
from checks.pyref import PYREF, driver, emit, fresh_n, TRUSTP, posk, drive_prng, PRNGS

Q = 12289
STUB = ("fft", "ffsampling", "ntrugen", "rng", "samplerz")
XOFS = {"keccak_prng": "KeccakPRNG", "shake": "SHAKE", "blake2s_prng": "Blake2sPRNG"}

# degree -> (acceptance bound, signature length), from the specification of the scheme
PARAM = {2: (101498, 44), 4: (208714, 47), 8: (428865, 52), 16: (892039, 63), 32: (1852696, 82), 64: (3842630, 122), 128: (7959734, 200), 256: (16468416, 356), 512: (34034726, 666), 1024: (70265242, 1280)}

class Env:
    """models of the ring library, the hash objects and the coders; every model records what it was given"""
    def __init__(self, ip, title):
        self.ip = ip; self.title = title; h = ip.hooks; mh = ip.mhooks
        self.reg = {}                    # source of a coefficient list -> (ring expression, in transform domain)
        self.keccak = Cls("lib:sponge", Mod("lib"), [], {})
        h["polyntt.poly.Poly"] = self.poly
        h["binop"] = self.binop
        h["attr:coeffs"] = self.coeffs
        for n in ("ntt", "intt", "vec_mul", "inverse", "absorb", "pad", "squeeze"): mh[n] = getattr(self, "m_" + n)
        h["attr:NTT"] = lambda ip, st, o: T("nttlib", o) if o.op == "ring" else None
        h["call:T"] = self.callT
        h["polyntt.ntt_iterative.NTTIterative"] = lambda ip, st, a, kw: [(st, T("nttlib"))]
        h["new:keccak.KeccakHash"] = self.sponge
        h["eth_abi.packed.encode_packed"] = self.packed
        self.atoms = {}
    # ---- ring expressions: {multiset of atoms: coefficient} modulo q
    def n_of(self, st, v):
        s = self.ip.seq(v, st); return st.norm(slen(s)) if s is not None else None
    def ring(self, e, n): 
        t = T("ring", K(repr(sorted((k, c) for k, c in e.items() if c % Q)))); t.e = {k: c % Q for k, c in e.items() if c % Q}; t.n = n
        return t
    def canon(self, v, st):
        "list of coefficients -> ring expression"
        s = self.ip.seq(v, st)
        if s is None:
            return {(("v", show(v)),): 1}
        ps = Gen.tidy(None, s.p, st)
        if len(ps) == 1 and ps[0][0] == "s":
            src, lo = ps[0][1], st.norm(ps[0][2])
            r = self.base(src, lo, st)
            if r is not None:
                b, lo2, sgn = r
                if b in self.reg and st.zero(lo2):
                    e, dom = self.reg[b]
                    if not dom: return {k: c * sgn % Q for k, c in e.items()}
                key = ("c", b.key(), show(lo2)); self.atoms[key] = (b, lo2)
                return {(key,): sgn % Q}
        return {(("l", show(st.vnorm(S("list", ps)))),): 1}
    def base(self, src, lo, st):
        "coefficients congruent modulo q (up to a constant sign) to those of another list"
        if src.val is None: return src, lo, 1
        v = src.val
        if not isinstance(v, I): return None
        l = self.modq(v.lin)
        if l is None or len(l[1]) != 1 or l[0]: return None
        (t, c), = l[1].items()
        if c not in (1, Q - 1): return None
        d = DEF.get(t)
        if not d or d[0] != "at": return None
        off = ladd(d[1][1], lsym(src.ix), -1)
        if src.ix in off[1]: return None
        r = self.base(d[1][0], st.norm(ladd(off, lo)), st)
        return (r[0], r[1], r[2] * (1 if c == 1 else -1)) if r else None
    def modq(self, l):
        "linear form modulo q with reductions and corrections by multiples of q removed"
        c = l[0]; t = {}
        for s, x in l[1].items():
            d = DEF.get(s); r = (0, {s: 1})
            if d and d[0] == "mod" and d[1][1] % Q == 0: r = self.modq(d[1][0])
            elif d and d[0] == "ite":
                p, r2 = self.modq(d[1][1]), self.modq(d[1][2])
                if p is not None and r2 is not None and leq(p, r2): r = p
            elif d and d[0] == "at" and d[1][0].val is not None:
                v = sub(d[1][0].val, {d[1][0].ix: d[1][1]}, self.ip)
                if isinstance(v, I): r = self.modq(v.lin)
            if r is None: return None
            c += x * r[0]
            for u, y in r[1].items(): t[u] = t.get(u, 0) + x * y
        return (c % Q, {u: y % Q for u, y in t.items() if y % Q})
    def lst(self, st, e, dom, n):
        t = self.ring(e, n)
        src = self.ip.src_term(T("ntt" if dom else "coeffs", t), 0, Q - 1)
        self.reg[src] = (t.e, dom)
        return self.ip.mk(st, "list", [("s", src, lconst(0), n)])
    def poly(self, ip, st, a, kw):
        if len(a) < 1 or len(a) > 1 and const(a[1]) != Q or "q" in kw and const(kw["q"]) != Q or len(a) < 2 and "q" not in kw: ip.oblige("ring", False, self.title, "a polynomial over another modulus")
        t = self.ring(self.canon(a[0], st), self.n_of(st, a[0])); t.lst = a[0]
        r = T("ring", t.a[0], K("p%d" % len(self.atoms)), *( [ip.val(a[0], st)] )); r.e = t.e; r.n = t.n; r.lst = a[0]
        return [(st, r)]
    def binop(self, ip, st, op, x, y):
        if not (isinstance(x, T) and x.op == "ring" and isinstance(y, T) and y.op == "ring"): return None
        e = {}
        if isinstance(op, (ast.Add, ast.Sub)):
            e = dict(x.e); s = 1 if isinstance(op, ast.Add) else -1
            for k, c in y.e.items(): e[k] = (e.get(k, 0) + s * c) % Q
        elif isinstance(op, ast.Mult):
            for k, c in x.e.items():
                for j, d in y.e.items(): m = tuple(sorted(k + j, key=repr)); e[m] = (e.get(m, 0) + c * d) % Q
        elif isinstance(op, ast.Div): 
            self.atoms[("div", x.a[0].v, y.a[0].v)] = [x.e, y.e]
            return [(st, self.ring({(("div", x.a[0].v, y.a[0].v),): 1}, x.n))]
        else: return None
        return [(st, self.ring(e, x.n))]
    def coeffs(self, ip, st, o):
        if o.op != "ring": return None
        if getattr(o, "lst", None) is not None: return o.lst
        return self.lst(st, o.e, False, o.n)
    def m_ntt(self, ip, st, o, a, kw):
        if not isinstance(o, T): return None
        if o.op == "ring" and not a: return [(st, self.lst(st, o.e, True, o.n))]
        if o.op == "nttlib" and len(a) == 1: return [(st, self.lst(st, self.canon(a[0], st), True, self.n_of(st, a[0])))]
    def dom(self, v, st):
        "list in the transform domain -> ring expression"
        s = self.ip.seq(v, st)
        if s is None: return None
        ps = Gen.tidy(None, s.p, st)
        if len(ps) == 1 and ps[0][0] == "s":
            r = self.base(ps[0][1], st.norm(ps[0][2]), st)
            if r is not None:
                b, lo, sg = r
                if b in self.reg and self.reg[b][1] and st.zero(lo): return {k: c * sg % Q for k, c in self.reg[b][0].items()}
                key = ("N", b.key(), show(lo)); self.atoms[key] = (b, lo)
                return {(key,): sg % Q}
            key = ("N", show(st.vnorm(S("list", ps)))); self.atoms[key] = (ps[0][1], st.norm(ps[0][2]))
            return {(key,): 1}
        key = ("N", show(st.vnorm(S("list", ps))))
        return {(key,): 1}
    def m_vec_mul(self, ip, st, o, a, kw):
        if not (isinstance(o, T) and o.op == "nttlib" and len(a) == 2): return None
        x, y = self.dom(a[0], st), self.dom(a[1], st)
        if x is None or y is None: return None
        e = {}
        for k, c in x.items():
            for j, d in y.items(): m = tuple(sorted(k + j, key=repr)); e[m] = (e.get(m, 0) + c * d) % Q
        return [(st, self.lst(st, e, True, self.n_of(st, a[0])))]
    def m_intt(self, ip, st, o, a, kw):
        if not (isinstance(o, T) and o.op == "nttlib" and len(a) == 1): return None
        return [(st, self.lst(st, self.dom(a[0], st), False, self.n_of(st, a[0])))]
    def m_inverse(self, ip, st, o, a, kw):
        if not (isinstance(o, T) and o.op == "ring"): return None
        k = ("inv", repr(sorted(o.e.items(), key=repr))); self.atoms[k] = [o.e]
        return [(st, self.ring({(k,): 1}, o.n))]
    def callT(self, ip, st, f, a, kw):
        if f.op == "nttclass": return [(st, T("nttlib"))]
    # ---- sponge objects
    def mine(self, st, o): return isinstance(o, R) and isinstance(st.heap.get(o.i), Obj) and st.heap[o.i].cls is self.keccak
    def sponge(self, ip, st, a, kw):
        names = ["b", "rate", "dsbyte"]; v = dict(zip(names, a)); v.update(kw)
        s = ip.seq(v["b"], st) if "b" in v else S("bytes", [])
        return [(st, ip.alloc(st, Obj(self.keccak, {"rate": v.get("rate", NONE), "ds": v.get("dsbyte", NONE), "data": S("bytes", s.p if s is not None else [("s", ip.src_term(ip.val(v["b"], st), 0, 255), lconst(0), ip.vlen(v["b"], st))]), "padded": I(0), "pos": I(0)})))]
    def m_absorb(self, ip, st, o, a, kw):
        if not self.mine(st, o): return None
        h = st.heap[o.i].copy(); s = ip.seq(a[0], st)
        if s is None: s = S("bytes", [("s", ip.src_term(ip.val(a[0], st), 0, 255), lconst(0), ip.vlen(a[0], st))])
        ip.oblige("typestate", st.zero(h.a["padded"].lin), self.title, "a sponge absorbs after it was padded")
        h.a["data"] = S("bytes", h.a["data"].p + s.p); st.heap[o.i] = h
        return [(st, NONE)]
    def m_pad(self, ip, st, o, a, kw):
        if not self.mine(st, o): return None
        h = st.heap[o.i].copy()
        ip.oblige("typestate", st.zero(h.a["padded"].lin), self.title, "a sponge is padded twice")
        h.a["padded"] = I(1); st.heap[o.i] = h
        return [(st, NONE)]
    def m_squeeze(self, ip, st, o, a, kw):
        if not self.mine(st, o): return None
        h = st.heap[o.i].copy(); n = lin_of(a[0])
        ip.oblige("typestate", st.zero(ladd(h.a["padded"].lin, lconst(-1))), self.title, "a sponge is read before it was padded")
        d = st.vnorm(h.a["data"]); src = ip.src_term(T("sponge", h.a["rate"], h.a["ds"], d), 0, 255)
        src.sponge = (const(h.a["rate"]), const(h.a["ds"]), d)
        pos = h.a["pos"].lin; h.a["pos"] = I(st.norm(ladd(pos, n))); st.heap[o.i] = h
        return [(st, S("bytes", [("s", src, pos, n)]))]
    def packed(self, ip, st, a, kw):
        "packed encoding of a list of uint256"
        ty = ip.seq(a[0], st); v = ip.seq(a[1], st)
        ok = ty is not None and v is not None and st.zero(ladd(slen(ty), slen(v), -1)) and all((p[0] == "r" and strval(p[1]) == "uint256") or (p[0] == "c" and all(strval(x) == "uint256" for x in p[1])) for p in ty.p)
        ip.oblige("encoding", bool(ok), self.title, "a key is not hashed as 256-bit words")
        src = ip.src_term(T("packed", ip.val(a[1], st)), 0, 255); src.packed = (a[1], st.vnorm(S("list", v.p)) if v is not None else None)
        return [(st, S("bytes", [("s", src, lconst(0), lscale(slen(v), 32) if v is not None else fresh_n("plen"))]))]

# ------------------------------------------------------------------ signature objects
def mkip(title, extra=None):
    ip = Ip(PYREF, {}, stub=STUB); env = Env(ip, title)
    return ip, env

def sums(l):
    "linear form -> (constant, [(source, lo, hi, coefficient)]) or None"
    out = []
    for t, c in l[1].items():
        d = DEF.get(t)
        if d and d[0] == "mul": out.append((None, d[1][0], d[1][1], c))
        elif d and d[0] == "sum": out.append((d[1][0], d[1][1], d[1][2], c))
        else: return None
    return l[0], out

def square_of(src, st, ip):
    "element function of a source that is a square -> the squared linear form in a fresh index"
    j = Sym("j", 0, 1 << 12)
    if src.val is not None:
        v = sub(src.val, {src.ix: lsym(j)}, ip)
        if not isinstance(v, I): return None
        l = v.lin
    else: l = lsym(term("at", (src, lsym(j)), src.lo, src.hi))
    if l[0] or len(l[1]) != 1: return None
    (t, c), = l[1].items(); d = DEF.get(t)
    if c != 1 or not d or d[0] != "mul" or not (leq(d[1][0], d[1][1]) or leq(d[1][0], lscale(d[1][1], -1))): return None
    return j, d[1][0]

def facts(st):
    for f in list(st.n.facts): yield st.norm(f)
    for c in st.pc:
        if c[0] == "ge": yield st.norm(c[1])
        elif c[0] == "eq": yield st.norm(c[1])

def covers(env, st, half, n, raw):
    """some fact on this path bounds by `bound` the sum of squares over every coefficient; half: list of targets -> list of uncovered or True"""
    ip = env.ip; best = None
    for f in facts(st):
        r = sums(f)
        if r is None or not r[1] or any(c != -1 for *_, c in r[1]): continue
        got = {k: [] for k in range(len(half))}
        for src, lo, hi, c in r[1]:
            if src is None:
                # one squared coefficient
                if not (leq(lo, hi) or leq(lo, lscale(hi, -1))): continue
                j, t, lo, hi = None, st.norm(lo), (0, {}), lconst(1)
            else:
                w = square_of(src, st, ip)
                if w is None: continue
                j, t = w
            m = env.modq(t)
            if m is None or len(m[1]) != 1 or m[0]: continue
            (u, k), = m[1].items(); d = DEF.get(u)
            if k not in (1, Q - 1) or not d or d[0] != "at" or (j is not None and d[1][1][1].get(j) != 1): continue
            b, off = d[1][0], ladd(d[1][1], lsym(j), -1) if j is not None else d[1][1]
            exact = t in ((0, {u: 1}), (0, {u: -1})) or leq(t, lsym(u)) or leq(t, lscale(lsym(u), -1))
            x, y = st.rng(t)
            small = -(Q // 2) <= x and y <= Q // 2
            for i, h in enumerate(half):
                if h[0] == "raw" and b is h[1] and exact: got[i].append((st.norm(ladd(ladd(lo, off), h[2], -1)), st.norm(ladd(ladd(hi, off), h[2], -1))))
                if h[0] == "ring" and b in env.reg and not env.reg[b][1] and small:
                    e = env.reg[b][0]
                    if e in h[1]: got[i].append((st.norm(ladd(lo, off)), st.norm(ladd(hi, off))))
        miss = []
        for i in got:
            if not spans(st, got[i], n): miss.append(i)
        if best is None or len(miss) < len(best[0]) or (len(miss) == len(best[0]) and r[0] < best[1]): best = (miss, r[0])
    return best

def drive_verify(mod, cls, fn, n, xofname, kind):
    """every path of a verifier or of a key recovery for every message, signature and key"""
    title = "%s.%s.%s n=%d %s" % (mod, cls, fn, n, xofname or "default")
    ip, env = mkip(title); h = ip.hooks
    m = ip.module(mod)
    MSG = src_of(("MSG",), "message", 0, 255); SIG = src_of(("SIG",), "signature", 0, 255); PK = src_of(("PK",), "key", 0, Q - 1)
    ML = lsym(Sym("mlen", 0, 1 << 40)); SL = lsym(Sym("slen", 0, 1 << 20))
    fm = ip.module("falcon")
    bound, blen = PARAM[n]
    xof = None
    if xofname: xof = ip.module({v: k for k, v in XOFS.items()}[xofname]).env[xofname]
    want = xofname or "KeccakPRNG"
    nn = n if kind == "verify" else 2 * n
    DEC = None
    dsrc = src_of(("DEC", title), "decoded", -2047, 2047)
    def decompress(ip, st, a, kw):
        v = dict(zip(("x", "slen", "n"), a)); v.update(kw)
        x = ip.seq(v["x"], st); ps = Gen.tidy(None, x.p, st) if x is not None else []
        out = []
        ok = len(ps) == 1 and ps[0][0] == "s" and ps[0][1] is SIG and st.zero(ladd(ps[0][2], lconst(-41))) and (st.zero(ladd(ladd(ps[0][2], ps[0][3]), SL, -1)) if kind == "verify" else st.zero(ladd(ladd(ladd(ps[0][2], ps[0][3]), SL, -1), lconst(3 * n))))
        if not ps: ok = True         # nothing left to decode: never accepted
        ip.oblige("encoding", ok, title, "the bytes decoded are not the part of the signature after the salt: %s" % show(S("bytes", ps))[:120])
        ip.oblige("encoding", const(v["slen"]) == (blen if kind == "verify" else 2 * blen) - 41, title, "the encoding is bounded by %s bytes" % show(v["slen"]))
        ip.oblige("encoding", const(v["n"]) == nn, title, "%s coefficients are decoded" % show(v["n"]))
        f = st.fork(); f.g["bad"] = I(1); out.append((f, K(False)))
        # an accepted encoding has a first byte: the decoder refuses the empty string
        g = st.fork()
        if x is None or g.add(ladd(slen(x), lconst(-1))) is not False:
            if g.n is not None: g.g["dec"] = I(1); out.append((g, ip.mk(g, "list", [("s", dsrc, lconst(0), lconst(nn))])))
        return out
    h["encoding.decompress"] = decompress
    hsrc = src_of(("H2P", title), "hashed", 0, Q - 1)
    def h2p(ip, st, a, kw):
        v = dict(zip(("n", "message", "salt", "xof"), a)); v.update(kw)
        ms = ip.seq(v["message"], st); mp = Gen.tidy(None, ms.p, st) if ms is not None else []
        ip.oblige("hashing", const(v["n"]) == n, title, "the message is hashed to %s coefficients" % show(v["n"]))
        ip.oblige("hashing", st.zero(ML) and not mp or len(mp) == 1 and mp[0][0] == "s" and mp[0][1] is MSG and st.zero(mp[0][2]) and st.zero(ladd(mp[0][3], ML, -1)), title, "what is hashed is not the message")
        ss = ip.seq(v["salt"], st); sp = Gen.tidy(None, ss.p, st) if ss is not None else []
        ip.oblige("hashing", len(sp) == 1 and sp[0][0] == "s" and sp[0][1] is SIG and st.zero(ladd(sp[0][2], lconst(-1))) and st.zero(ladd(sp[0][3], lconst(-40))), title, "the salt hashed is not bytes 1 to 40 of the signature")
        x = v.get("xof"); xn = None
        if isinstance(x, Cls): xn = x.name
        elif isinstance(x, R) and isinstance(st.heap.get(x.i), Obj): xn = st.heap[x.i].cls.name
        elif x is None: xn = "KeccakPRNG"
        ip.oblige("hashing", xn == want, title, "the hash is %s, the caller asked for %s" % (xn, want))
        return [(st, ip.mk(st, "list", [("s", hsrc, lconst(0), lconst(n))]))]
    h["falcon.hash_to_point"] = h2p
    st = St(); st.fr = [{}]
    pk = ip.mk(st, "list", [("s", PK, lconst(0), lconst(n))]) if kind == "verify" else I(lsym(Sym("pkhash", 0, (1 << 160) - 1)))
    if cls not in m.env: raise Unsup("%s has no %s" % (mod, cls))
    (st, obj), = ip.call(m.env[cls], [I(n), pk], {}, st)
    kw = {} if xof is None else {"xof": xof}
    rs = ip.call(ip.attr(obj, fn, st), [S("bytes", [("s", MSG, lconst(0), ML)]), S("bytes", [("s", SIG, lconst(0), SL)])], kw, st)
    c = lambda src, off=0: {(("c", src.key(), show(lconst(off))),): 1}
    H, PKe = c(hsrc), c(PK)
    acc = 0
    for s, v in rs:
        if isinstance(v, Exc): continue
        t = ip.truth(v, s)
        if t[0] == "F": continue
        for g in (s.fork().assume(t) if t[0] != "T" else [s]):
            if not g.close(): continue
            k = lin_of(v) if fn == "recover" else None
            if fn == "recover" and k is None and isinstance(v, T): pass
            acc += 1
            if "bad" in g.g or "dec" not in g.g:
                ip.oblige("decoded", False, title, "success although the encoding was refused"); continue
            ip.oblige("decoded", True, title)
            if kind == "verify":
                # s0 = hashed - s1 * pk; s1 is the decoded list
                e = dict(H); e[tuple(sorted((("c", dsrc.key(), "0"), ("c", PK.key(), "0")), key=repr))] = Q - 1
                half = [("ring", [e, {a: -b % Q for a, b in e.items()}]), ("raw", dsrc, lconst(0))]
            else: half = [("raw", dsrc, lconst(0)), ("raw", dsrc, lconst(n))]
            b = covers(env, g, half, n, kind != "verify")
            ip.oblige("norm", b is not None and not b[0], title, "success without a bound on the sum of squares of every coefficient of %s" % ("both halves" if b is None else " and ".join("s%d" % (i) for i in b[0])))
            if b is not None and not b[0]: ip.oblige("bound", b[1] <= bound, title, "the bound is %d, not %d" % (b[1], bound))
            if kind == "recover":
                recovered(env, g, v, fn, n, dsrc, hsrc, SIG, SL, mod, pk, title)
    ip.oblige("decoded", acc > 0, title, "nothing is ever accepted")
    return ip, rs, title, env

def spans(st, iv, n):
    "the intervals cover [0, n)"
    cur = lconst(0); iv = list(iv)
    while not st.prove(ladd(cur, lconst(-n))):
        k = next((k for k, (a, b) in enumerate(iv) if st.prove(ladd(cur, a, -1)) and st.prove(ladd(ladd(b, cur, -1), lconst(-1)))), None)
        if k is None: return False
        cur = iv.pop(k)[1]
    return True

def recovered(env, g, v, fn, n, dsrc, hsrc, SIG, SL, mod, pk, title):
    ip = env.ip
    # the hint: 3-byte big-endian words of the last 3n bytes
    S1 = {(("c", dsrc.key(), show(lconst(n))),): 1}
    prod = None; cov = {}
    for c in g.pc:
        k, l, rng = (c[1][0], c[1][1], (c[2], c[3], c[4])) if c[0] == "all" else (c[0], c[1], None)
        if k != "eq" or len(l[1]) != 1: continue
        (t, k), = l[1].items(); d = DEF.get(t)
        if not d or d[0] != "at" or l[0] not in (1, -1) or k != -l[0]: continue
        b = d[1][0]
        if b not in env.reg or not env.reg[b][1]: continue
        if rng:
            off = ladd(d[1][1], lsym(rng[0]), -1); cov.setdefault(b, []).append((g.norm(ladd(rng[1], off)), g.norm(ladd(rng[2], off))))
        else: cov.setdefault(b, []).append((g.norm(d[1][1]), g.norm(ladd(d[1][1], lconst(1)))))
    for b, iv in cov.items():
        e = env.reg[b][0]
        if len(e) != 1: continue
        (mon, k2), = e.items(); me = ("c", dsrc.key(), show(lconst(n)))
        if k2 != 1 or len(mon) != 2 or mon.count(me) != 1 or not spans(g, iv, n): continue
        prod = next(x for x in mon if x != me)
    ip.oblige("hint", prod is not None, title, "success without the product of hint and transformed signature compared with one for every coefficient")
    if prod is None: return
    a = env.atoms.get(prod); okh = False
    if a is not None and isinstance(a, tuple) and isinstance(a[0], Src): okh = hint_src(ip, g, a[0], a[1], SIG, SL, n)
    ip.oblige("hint", okh, title, "the hint multiplied is not the 3-byte words at the end of the signature: %s" % (a,))
    # the key: low 20 bytes of the Keccak-256 hash of the packed key
    lin = lin_of(v)
    keyterm = None
    if fn == "verify":
        # equality of the given key with the digest
        for c in [("eq", f) for f in [*(x[1] for x in g.pc if x[0] == "eq")]] + [("eqs", ladd(lsym(k2), e2, -1)) for k2, e2 in g.eq.items()]:
            for t in c[1][1]:
                d = key_bytes(t)
                if d is not None and leq(c[1], ladd(lsym(t), pk.lin, -1)) or d is not None and leq(c[1], ladd(pk.lin, lsym(t), -1)): keyterm = d
        ip.oblige("key", keyterm is not None, title, "success although the recovered key was not compared with the given one")
        if keyterm is None: return
    else:
        if lin is not None and len(lin[1]) == 1 and lin[0] == 0:
            (t, k), = lin[1].items()
            if k == 1: keyterm = key_bytes(t)
        ip.oblige("key", keyterm is not None, title, "what is returned is not a 20-byte hash: %s" % show(v)[:120])
        if keyterm is None: return
    src, lo, ln = keyterm
    sp = getattr(src, "sponge", None)
    ok = sp is not None and sp[0] == 136 and sp[1] == 1 and g.zero(ladd(lo, lconst(-12))) and g.zero(ladd(ln, lconst(-20)))
    ip.oblige("key", ok, title, "the key is not bytes 12 to 31 of a Keccak-256 hash")
    if not ok: return
    ps = Gen.tidy(None, sp[2].p, g); pk_ = getattr(ps[0][1], "packed", None) if len(ps) == 1 and ps[0][0] == "s" else None
    if pk_ is None: ip.oblige("key", False, title, "the hash is not over the packed key: %s" % show(sp[2])[:120]); return
    want = {}
    for m2, c2 in (({("c", hsrc.key(), "0"): 1}, 1), ({("c", dsrc.key(), "0"): 1}, Q - 1)):
        want[tuple(sorted(tuple(m2) + (prod,), key=repr))] = c2
    v2 = pk_[1]
    got = env.canon(v2, g) if mod == "falcon_recovery" else env.dom(v2, g)
    ip.oblige("key", got == want, title, "the key hashed is not (hash - s0) times the hint: %s" % (str(got)[:200]))

def key_bytes(t):
    "symbol that is the big-endian value of bytes -> (source, start, length) or None"
    d = DEF.get(t)
    if not d or d[0] != "bits" or len(d[1]) != 1 or d[1][0][0] != "s" or getattr(d[1][0][1], "owner", None) is None: return None
    x = d[1][0]
    if any(v % 8 for l in (x[2], x[3]) for v in (l[0], *l[1].values())): return None
    return x[1].owner, (x[2][0] // 8, {s: c // 8 for s, c in x[2][1].items()}), (x[3][0] // 8, {s: c // 8 for s, c in x[3][1].items()})

def hint_src(ip, g, src, lo, SIG, SL, n):
    "element j of the list is the big-endian value of bytes len-3n+3j .. +3 of the signature"
    j = Sym("j", 0, n - 1)
    v = ip.elem(src, ladd(lo, lsym(j)), g.fork(), "list")
    if not isinstance(v, I) or v.lin[0]: return False
    if len(v.lin[1]) == 3:
        at = {}
        for t, c in v.lin[1].items():
            d = DEF.get(t)
            if not d or d[0] != "at" or d[1][0] is not SIG: return False
            at[c] = d[1][1]
        base = ladd(ladd(SL, lconst(-3 * n)), lsym(j), 3)
        return set(at) == {1, 256, 65536} and all(g.zero(ladd(ladd(at[c], base, -1), lconst(-o))) for c, o in ((65536, 0), (256, 1), (1, 2)))
    if len(v.lin[1]) != 1: return False
    (t, c), = v.lin[1].items(); kb = key_bytes(t)
    return c == 1 and kb is not None and kb[0] is SIG and g.zero(ladd(kb[1], ladd(ladd(SL, lconst(-3 * n)), lsym(j), 3), -1)) and g.zero(ladd(kb[2], lconst(-3)))

def rope(ip, v, st):
    s = ip.seq(v, st)
    return Gen.tidy(None, s.p, st) if s is not None else None

class Sign:
    """models for the signers: sampler, coders, random sources"""
    def __init__(self, ip, env, title, n, own):
        self.ip = ip; self.env = env; self.title = title; self.n = n; self.own = own; h = ip.hooks; self.z = 0
        for f in ("sub", "neg", "add", "div", "mul"): h["fft." + f] = self.vec
        h["ffsampling.ffsampling_fft"] = self.sampler
        h["ffsampling.gram"] = lambda ip, st, a, kw: [(st, ip.mk(st, "list", [("c", [ip.mk(st, "list", [("c", [self.vec(ip, st, [], {})[0][1] for j in range(2)])]) for i in range(2)])]))]
        h["encoding.compress"] = self.compress
        h["caller.random"] = lambda ip, st, a, kw: self.rand(st, a, "caller")
        h["os.urandom"] = lambda ip, st, a, kw: self.rand(st, a, "os.urandom")
        h["rng.ChaCha20"] = self.chacha
        h["falcon.hash_to_point"] = self.h2p
        h["falcon.normalize_tree"] = lambda ip, st, a, kw: [(st, NONE)]
    def rand(self, st, a, who):
        n = lin_of(a[0])
        Sign.k = getattr(Sign, "k", 0) + 1
        src = src_of(("rnd", who, Sign.k), "%s bytes %d" % (who, Sign.k), 0, 255); src.who = who
        return [(st, S("bytes", [("s", src, lconst(0), n)]))]
    def vec(self, ip, st, a, kw):
        src = ip.src_term(T("vec", K(ip.where[1]), *[ip.val(x, st) for x in a])); src.vec = [rope(ip, x, st) for x in a]
        return [(st, ip.mk(st, "list", [("s", src, lconst(0), lconst(self.n))]))]
    def chacha(self, ip, st, a, kw):
        b = rope(ip, a[0], st) if a else None
        t = T("chacha", ip.val(a[0], st) if a else NONE); t.seed = b
        return [(st, t)]
    def roots(self, ps):
        "who supplies these bytes"
        out = set()
        for p in ps or ():
            if p[0] != "s": continue
            w = getattr(p[1], "who", None); sp = getattr(p[1], "sponge", None)
            if w: out.add(w)
            elif sp: out |= self.roots(sp[2].p)
            elif getattr(p[1], "term", None) is not None: out.add("?")
        return out
    def sampler(self, ip, st, a, kw):
        v = dict(zip(("t", "T", "sigmin", "randombytes"), a)); v.update(kw)
        f = v.get("randombytes"); who = None; size = None
        if isinstance(f, Ext) and f.name == "os.urandom": who = {"os.urandom"}
        elif isinstance(f, Ext) and f.name == "caller.random": who = {"caller"}
        elif isinstance(f, Bound):
            s = f.s
            if isinstance(s, T) and s.op == "chacha":
                who = self.roots(s.seed); size = s.seed
                ip.oblige("randomness", s.seed is not None and st.zero(ladd(slen(S("bytes", s.seed)), lconst(-56))), self.title, "the stream cipher is not seeded with 56 bytes")
            elif isinstance(s, R) and isinstance(st.heap.get(s.i), Obj):
                o = st.heap[s.i]; data = None; padded = None
                for x in [o] + [st.heap[y.i] for y in o.a.values() if isinstance(y, R) and isinstance(st.heap.get(y.i), Obj)]:
                    if x.cls is self.env.keccak: data = x.a["data"]; padded = x.a["padded"]
                if data is not None:
                    who = self.roots(data.p)
                    ip.oblige("typestate", st.zero(ladd(padded.lin, lconst(-1))), self.title, "the sampler reads a hash that is not finalised")
        want = {"caller"} if self.own else {"os.urandom"}
        ip.oblige("randomness", who == want, self.title, "the sampler's randomness comes from %s" % (sorted(who) if who else show(f) if f is not None else None))
        self.z += 1
        Sign.k = getattr(Sign, "k", 0) + 1
        return [(st, T("z", K(Sign.k)))]
    def compress(self, ip, st, a, kw):
        v = dict(zip(("v", "slen"), a)); v.update(kw)
        f = st.fork(); n = lin_of(v["slen"])
        src = ip.src_term(T("compress", ip.val(v["v"], st), v["slen"]), 0, 255); src.coded = rope(ip, v["v"], st); src.slen = n
        return [(f, K(False)), (st, S("bytes", [("s", src, lconst(0), n)]))]
    def h2p(self, ip, st, a, kw):
        v = dict(zip(("n", "message", "salt", "xof"), a)); v.update(kw)
        x = v.get("xof"); xn = x.name if isinstance(x, Cls) else st.heap[x.i].cls.name if isinstance(x, R) and isinstance(st.heap.get(x.i), Obj) else "KeccakPRNG" if x is None else None
        ip.oblige("hashing", xn == self.want, self.title, "the hash is %s, the caller asked for %s" % (xn, self.want))
        ip.oblige("hashing", const(v["n"]) == self.n, self.title, "the message is hashed to %s coefficients" % show(v["n"]))
        mp = rope(ip, v["message"], st)
        ip.oblige("hashing", mp is not None and (st.zero(self.ML) and not mp or len(mp) == 1 and mp[0][0] == "s" and mp[0][1] is self.MSG and st.zero(mp[0][2]) and st.zero(ladd(mp[0][3], self.ML, -1))), self.title, "what is hashed is not the message")
        src = ip.src_term(T("h2p", ip.val(v["salt"], st)), 0, Q - 1); src.salt = rope(ip, v["salt"], st)
        return [(st, ip.mk(st, "list", [("s", src, lconst(0), lconst(self.n))]))]

def drive_sign(mod, cls, n, xofname, own, kind):
    """every path of a signer for every message and every outcome of sampler and encoder"""
    title = "%s.%s.sign n=%d %s %s" % (mod, cls, n, xofname or "default", "caller's randomness" if own else "system randomness")
    ip, env = mkip(title); sg = Sign(ip, env, title, n, own); sg.want = xofname or "KeccakPRNG"
    m = ip.module(mod); ip.module("falcon")
    if cls not in m.env: raise Unsup("%s has no %s" % (mod, cls))
    sg.MSG = src_of(("MSG",), "message", 0, 255); sg.ML = lsym(Sym("mlen", 0, 1 << 40))
    bound, blen = PARAM[n]
    st = St(); st.fr = [{}]
    polys = ip.mk(st, "list", [("c", [ip.mk(st, "list", [("s", src_of(("poly", x), "secret " + x, -127, 127), lconst(0), lconst(n))]) for x in "fgFG"])])
    rs = [(a, o) for a, o in ip.call(m.env[cls], [I(n), polys], {}, st) if not isinstance(o, Exc)]
    if len(rs) != 1: raise Unsup("%s: %d ways to construct a key" % (cls, len(rs)))
    st, obj = rs[0]
    ip.obl.clear(); ip.alarms.clear(); ip.cnt.clear()
    kw = {}
    if xofname: kw["xof"] = ip.module({v: k for k, v in XOFS.items()}[xofname]).env[xofname]
    if own: kw["randombytes"] = Ext("caller.random")
    rs = ip.call(ip.attr(obj, "sign", st), [S("bytes", [("s", sg.MSG, lconst(0), sg.ML)])], kw, st)
    ret = 0
    for g, v in rs:
        if isinstance(v, Exc):
            ip.oblige("typestate", "XOF" not in v.name, title, v.name); 
            if v.where and v.where[0] in ("shake", "keccak_prng", "blake2s_prng", "keccaxof"): ip.oblige("typestate", False, title, "%s at %s:%s" % (v.name, v.where[0], v.where[1]))
            continue
        ps = rope(ip, v, g)
        if ps is None: ip.oblige("layout", False, title, "returns %s" % show(v)[:120]); continue
        if not g.close(): continue
        ret += 1
        enc = [p for p in ps if p[0] == "s" and getattr(p[1], "coded", None) is not None]
        ok = len(enc) == 1 and len(ps) == (3 if kind == "sign" else 4) and ps[0][0] == "c" and len(ps[0][1]) == 1 and enc[0] is ps[2]
        ip.oblige("layout", ok, title, "the signature is not header, salt and encoding: %s" % show(v)[:300])
        if not ok: continue
        e = enc[0]; L = blen - 41 if kind == "sign" else 2 * blen - 41
        ip.oblige("layout", g.zero(e[2]) and g.zero(ladd(e[3], e[1].slen, -1)) and g.zero(ladd(e[3], lconst(-L))), title, "the encoding is not the %d bytes of the encoder" % L)
        s = ps[1]
        ip.oblige("salt", s[0] == "s" and getattr(s[1], "who", None) == ("caller" if own else "os.urandom") and g.zero(ladd(s[3], lconst(-40))), title, "the salt is not 40 fresh random bytes: %s" % show(S("bytes", [s]))[:120])
        # the vector: what was encoded, and the difference with the hashed point
        co = e[1].coded; parts = co if co else []
        def src1(p): return p[0] == "s" and g.zero(p[2]) and g.zero(ladd(p[3], lconst(-n)))
        good = len(parts) == (1 if kind == "sign" else 2) and all(src1(p) for p in parts)
        ip.oblige("encoded", good, title, "what is encoded is not the %s of the sampled vector" % ("second half" if kind == "sign" else "two halves"))
        if not good: continue
        s1 = parts[-1][1]
        s0s = set()
        for f in facts(g):
            r = sums(f)
            for src, lo, hi, c in (r[1] if r else ()):
                w = square_of(src, g, ip)
                if w is None or len(w[1][1]) != 1: continue
                d = DEF.get(next(iter(w[1][1])))
                if d and d[0] == "at" and getattr(d[1][0], "vec", None) and d[1][0] is not s1: s0s.add(d[1][0])
        best = None
        for s0 in ([parts[0][1]] if kind == "recover" else sorted(s0s, key=lambda x: x.id)):
            a = getattr(s0, "vec", None)
            hp = a[0] if a else None
            if not (hp and len(hp) == 1 and hp[0][0] == "s" and getattr(hp[0][1], "salt", None) is not None and g.zero(hp[0][2])): continue
            b = covers(env, g, [("raw", s0, lconst(0)), ("raw", s1, lconst(0))], n, True)
            if b is not None and (best is None or len(b[0]) < len(best[0])): best = b; sl = hp[0][1].salt
        ip.oblige("norm", best is not None and not best[0], title, "a signature leaves without a bound on the sum of squares of every coefficient of both halves" if best is None else "the norm does not count every coefficient of half %s" % best[0])
        if best is None or best[0]: continue
        ip.oblige("bound", best[1] <= bound, title, "the bound is %d, not %d" % (best[1], bound))
        ip.oblige("salt", len(sl) == 1 and sl[0][0] == "s" and sl[0][1] is s[1] and g.zero(ladd(sl[0][2], s[2], -1)) and g.zero(ladd(sl[0][3], lconst(-40))), title, "the salt hashed is not the salt in the signature")
        if kind == "recover":
            iv = []
            for c in g.pc:
                if c[0] != "all" or c[1][0] != "ne": continue
                l = c[1][1]
                if len(l[1]) != 1 or l[0]: continue
                (t, k), = l[1].items(); d = DEF.get(t)
                if d and d[0] == "mod" and d[1][1] == Q and len(d[1][0][1]) == 1 and not d[1][0][0]:
                    (t, k), = d[1][0][1].items(); d = DEF.get(t)
                if not d or d[0] != "at" or d[1][0] not in env.reg or not env.reg[d[1][0]][1]: continue
                x = env.reg[d[1][0]][0]
                if set(x) == {(("c", s1.key(), "0"),)}:
                    off = ladd(d[1][1], lsym(c[2]), -1); iv.append((g.norm(ladd(c[3], off)), g.norm(ladd(c[4], off))))
            ip.oblige("invertible", spans(g, iv, n), title, "a signature leaves although a coefficient of the transformed second half may be zero")
            w = ps[3]; ok = w[0] == "s" and g.zero(ladd(w[3], lconst(-3 * n)))
            t = getattr(w[1], "term", None) if ok else None
            okh = False
            if ok and t is not None and t.op == "concat":
                q = t.a[0]
                if isinstance(q, S) and len(q.p) == 1 and q.p[0][0] == "s" and isinstance(q.p[0][1].val, S):
                    j = Sym("j", 0, n - 1); x = sub(q.p[0][1].val, {q.p[0][1].ix: ladd(q.p[0][2], lsym(j))}, ip)
                    if len(x.p) == 1 and x.p[0][0] == "s":
                        t2 = getattr(x.p[0][1], "term", None)
                        if t2 is not None and t2.op == "be" and const(t2.a[0]) == 3:
                            (u, k), = t2.a[1].lin[1].items() if len(t2.a[1].lin[1]) == 1 else (((None, 0)),)
                            d = DEF.get(u)
                            if d and d[0] == "at" and d[1][0] in env.reg and env.reg[d[1][0]][1] and g.zero(ladd(d[1][1], lsym(j), -1)):
                                okh = set(env.reg[d[1][0]][0]) == {(("inv", repr(sorted({(("c", s1.key(), "0"),): 1}.items(), key=repr))),)}
            ip.oblige("hint", okh, title, "the hint is not the 3-byte words of the transformed inverse of the second half")
    ip.oblige("layout", ret > 0, title, "no path signs")
    return ip, rs, title, env

# ------------------------------------------------------------------ hashing objects
def ghost(ip, mod, cls, title):
    """replace a hashing class by its specification: absorb, finalise once, then a byte stream of what was absorbed"""
    c = ip.module(mod).env[cls]; h = ip.hooks; base = "%s.%s." % (mod, cls)
    def new(ip, st, a, kw):
        d = a[0] if a else kw.get("data")
        s = ip.seq(d, st) if d is not None else S("bytes", [])
        return [(st, ip.alloc(st, Obj(c, {"%d": S("bytes", s.p if s is not None else []), "%f": I(0), "%p": I(0)})))]
    def upd(ip, st, a, kw):
        o = st.heap[a[0].i].copy(); s = ip.seq(a[1], st)
        ip.oblige("typestate", st.zero(o.a["%f"].lin), title, "input after finalisation")
        if s is None: s = S("bytes", [("s", ip.src_term(ip.val(a[1], st), 0, 255), lconst(0), ip.vlen(a[1], st))])
        o.a["%d"] = S("bytes", o.a["%d"].p + s.p); st.heap[a[0].i] = o
        return [(st, NONE)]
    def flip(ip, st, a, kw):
        o = st.heap[a[0].i].copy()
        ip.oblige("typestate", st.zero(o.a["%f"].lin), title, "finalised twice")
        o.a["%f"] = I(1); st.heap[a[0].i] = o
        return [(st, NONE)]
    def read(ip, st, a, kw):
        o = st.heap[a[0].i].copy(); n = lin_of(a[1])
        ip.oblige("typestate", st.zero(ladd(o.a["%f"].lin, lconst(-1))), title, "read before finalisation")
        d = st.vnorm(o.a["%d"]); src = ip.src_term(T("xof", K(cls), d), 0, 255); src.xof = (cls, d)
        pos = st.norm(o.a["%p"].lin); o.a["%p"] = I(st.norm(ladd(pos, n))); st.heap[a[0].i] = o
        if ip.on_read: ip.on_read(st, src, pos, n)
        return [(st, S("bytes", [("s", src, pos, n)]))]
    h["new:%s.%s" % (mod, cls)] = new
    h[base + "new"] = lambda ip, st, a, kw: new(ip, st, a[1:], kw)
    h[base + "update"] = upd; h[base + "flip"] = flip; h[base + "read"] = read
    return c
Ip.on_read = None

def drive_h2p(mod, cls, n, inst):
    title = "falcon.hash_to_point n=%d %s%s" % (n, cls or "default", " object" if inst else "")
    ip, env = mkip(title)
    m = ip.module("falcon")
    if "hash_to_point" not in m.env: raise Unsup("no hash_to_point")
    for a, b in XOFS.items(): ghost(ip, a, b, title)
    MSG = src_of(("MSG",), "message", 0, 255); ML = lsym(Sym("mlen", 0, 1 << 40)); SALT = src_of(("SALT",), "salt", 0, 255)
    h = ip.hooks
    lib = Cls("lib:hash", Mod("lib"), [], {})
    def b2s(ip, st, a, kw):
        s = ip.seq(a[0], st) if a else S("bytes", [])
        return [(st, ip.alloc(st, Obj(lib, {"data": S("bytes", s.p), "kw": K(sorted(kw))})))]
    h["hashlib.blake2s"] = b2s
    def digest(ip, st, o, a, kw):
        if not (isinstance(o, R) and isinstance(st.heap.get(o.i), Obj) and st.heap[o.i].cls is lib): return None
        src = ip.src_term(T("blake2s", st.heap[o.i].a["kw"], st.vnorm(st.heap[o.i].a["data"])), 0, 255); src.of = st.vnorm(st.heap[o.i].a["data"]); src.plain = st.heap[o.i].a["kw"].v == []
        return [(st, S("bytes", [("s", src, lconst(0), lconst(32))]))]
    ip.mhooks["digest"] = digest
    st = St(); st.fr = [{}]; st.g["pend"] = I(0); st.g["acc"] = I(0); st.g["rd"] = I(0); st.g["smp"] = I(0)
    K_ = (65536 // Q) * Q
    cur = {}
    def expand(l):
        "bytes of a stream read as one number, written as a sum of bytes"
        out = (l[0], {})
        for s, k in l[1].items():
            d = DEF.get(s); r = lsym(s)
            if d and d[0] == "bits":
                n = 0; r = (0, {})
                for x in reversed(d[1]):
                    if x[0] == "c":
                        for y in reversed(x[1]): r = ladd(r, lconst(y << n)); n += 1
                    elif not x[3][1] and x[3][0] % 8 == 0 and not any(v % 8 for v in (x[2][0], *x[2][1].values())) and getattr(x[1], "owner", None) is not None:
                        o = (x[2][0] // 8, {u: c // 8 for u, c in x[2][1].items()})
                        for j in range(x[3][0] // 8): r = ladd(r, lsym(term("at", (x[1].owner, ladd(o, lconst(x[3][0] // 8 - 1 - j))), 0, 255)), 1 << n); n += 8
                    else: r = lsym(s); break
            elif d and d[0] == "mod" and not isinstance(d[1][1], tuple):
                i = expand(d[1][0]); r = lsym(term("mod", (i, d[1][1]), 0, d[1][1] - 1)) if not leq(i, d[1][0]) else r
            out = ladd(out, r, k)
        return out
    def sample(st): return st.norm(st.g["smp"].lin)
    def knows(st, f):
        g = st.fork()
        bd = [b for s, v in g.n.sb.items() if s in DEF and s not in g.eq for b in ((-v[0], {s: 1}), (v[1], {s: -1}))]
        for x in list(g.n.facts) + bd:
            y = g.norm(expand(g.norm(x)))
            if not leq(x, y) and not g.n.add_fact(y): return True
        return g.prove(f)
    def settle(ip, st):
        "the last sample was stored, or it was rejected for being too large"
        if "src" not in cur: return
        g = st.fork()
        if not g.add_eq(ladd(g.g["pend"].lin, lconst(-1))): return
        ip.oblige("rejection", knows(g, ladd(sample(g), lconst(-K_))), title, "a sample below %d is dropped" % K_)
        st.g["pend"] = I(0)
    def on_back(ip, st):
        "a sample already known to be too large is settled; one still in hand stays pending"
        g = st.fork()
        if "src" in cur and g.add_eq(ladd(g.g["pend"].lin, lconst(-1))) and knows(g, ladd(sample(g), lconst(-K_))): st.g["pend"] = I(0)
    ip.on_back = on_back
    def on_read(st, src, pos, n):
        settle(ip, st); cur["src"] = src
        ip.oblige("samples", st.zero(ladd(n, lconst(-2))), title, "samples are not two bytes")
        ip.oblige("samples", st.zero(ladd(pos, st.g["rd"].lin, -1)), title, "samples are not taken in stream order")
        a = lambda o: lsym(term("at", (src, st.norm(ladd(pos, lconst(o)))), 0, 255))
        st.g["rd"] = I(st.norm(ladd(pos, n))); st.g["pend"] = I(1); st.g["smp"] = I(ladd(lscale(a(0), 256), a(1)))
    ip.on_read = on_read
    # the xof itself
    ip.res = {}
    def app(ip, st, o, pos, v):
        if not isinstance(v, I) or "src" not in cur: return
        g = st.fork()
        if not g.add_eq(ladd(g.g["pend"].lin, lconst(-1))):
            if "lst%d" % o.i in st.g: ip.oblige("place", False, title, "a second value is stored for one sample")
            return
        ip.oblige("place", st.zero(ladd(st.g["pend"].lin, lconst(-1))), title, "a value may be stored twice")
        ip.oblige("place", st.zero(ladd(pos, st.g["acc"].lin, -1)), title, "accepted samples are not stored one after the other")
        f = sample(st)
        ip.oblige("rejection", knows(st, ladd(lconst(K_ - 1), f, -1)), title, "a sample of %d or more is accepted" % K_)
        w = expand(st.norm(v.lin))
        ip.oblige("reduction", leq(w, ip.mod(f, Q, None)), title, "what is stored is not the sample modulo q: %s" % show(w)[:120])
        st.g["acc"] = I(st.norm(ladd(st.g["acc"].lin, lconst(1)))); st.g["pend"] = I(0); st.g["lst%d" % o.i] = I(1)
    ip.on_append = app
    c = ip.module(mod).env[cls] if cls else None
    args = [I(n), S("bytes", [("s", MSG, lconst(0), ML)]), S("bytes", [("s", SALT, lconst(0), lconst(40))])]
    if c is not None:
        x = c
        if inst: (st, x), = ip.call(ip.attr(c, "new", st), [], {}, st)
        rs = ip.call(m.env["hash_to_point"], args, {"xof": x}, st)
    else: rs = ip.call(m.env["hash_to_point"], args, {}, st)
    ret = 0
    want = cls or "KeccakPRNG"
    for g, v in rs:
        if isinstance(v, Exc): ip.oblige("total", False, title, "%s at %s:%s" % (v.name, v.where[0], v.where[1])); continue
        g.close(); ret += 1
        s = ip.seq(v, g)
        ip.oblige("count", s is not None and g.zero(ladd(slen(s), lconst(-n))) and g.zero(ladd(g.g["acc"].lin, lconst(-n))) and "lst%d" % v.i in g.g, title, "the result is not the list of %d accepted samples" % n)
        src = cur.get("src"); x = getattr(src, "xof", None)
        ip.oblige("order", x is not None and x[0] == want, title, "samples come from %s" % (x and x[0]))
        if x is None: continue
        ps = Gen.tidy(None, x[1].p, g)
        ok = len(ps) == 2 and all(p[0] == "s" for p in ps) and ps[1][1] is MSG and g.zero(ps[1][2]) and g.zero(ladd(ps[1][3], ML, -1))
        if ok and want == "Blake2sPRNG":
            d = getattr(ps[0][1], "of", None); dp = Gen.tidy(None, d.p, g) if d is not None else []
            ok = ps[0][1].plain and g.zero(ladd(ps[0][3], lconst(-32))) and g.zero(ps[0][2]) and len(dp) == 1 and dp[0][0] == "s" and dp[0][1] is SALT and g.zero(dp[0][2]) and g.zero(ladd(dp[0][3], lconst(-40))) if d is not None else False
        elif ok: ok = ps[0][1] is SALT and g.zero(ps[0][2]) and g.zero(ladd(ps[0][3], lconst(-40)))
        ip.oblige("order", ok, title, "what is absorbed is not salt then message: %s" % show(x[1])[:120])
    ip.oblige("count", ret > 0, title, "never returns")
    return ip, rs, title, env

# ------------------------------------------------------------------ properties
VERIFIERS = (("falcon", "PublicKey", "verify", "verify"), ("falcon_recovery", "RecoveryModePublicKey", "recover", "recover"), ("falcon_recovery", "RecoveryModePublicKey", "verify", "recover"),
             ("falcon_epervier", "EpervierPublicKey", "recover", "recover"), ("falcon_epervier", "EpervierPublicKey", "verify", "recover"))
SIGNERS = (("falcon", "SecretKey", "sign"), ("falcon_recovery", "RecoveryModeSecretKey", "recover"), ("falcon_epervier", "EpervierSecretKey", "recover"))
HASHES = (None, "SHAKE", "KeccakPRNG", "Blake2sPRNG")
TRUSTE = ("encoding.compress/decompress are used through their contracts (properties Y03 and the encoder's own return convention: False or slen bytes)",
          "polyntt (not in the repository): Poly is the ring modulo q and x^n+1, ntt/intt/vec_mul are the transform isomorphism and the pointwise product",
          "the Gaussian sampler and the floating-point transform are opaque: any vector may come out", "KeccakHash/eth_abi.encode_packed/ChaCha20 as opaque functions of what they absorb")

def y01(rep):
    rep.rules("for every history of calls on every XOF class: input and finalisation are refused after finalisation, reading is refused before it, calls in the right order are not refused (within the capacity)",
              "SHAKE delivers the next bytes of the sponge stream of exactly the input; KeccaXOF delivers as many bytes as asked for", "hash_to_point absorbs salt then message and finalises once before it reads, for every XOF", "the signers and the command line tool read no hash that is not finalised")
    rep.trust(*TRUSTP, *TRUSTE)
    for mod, cls, algo in PRNGS:
        ip, rs = drive_prng(mod, cls, algo); emit(rep, ip, "%s.%s" % (mod, cls), ("typestate",), ("typestate", "exception"))
    ip, rs, title = drive_xof("shake", "SHAKE", (136, 0x1f)); emit(rep, ip, title, ("typestate", "length", "stream", "absorbed"))
    ip, rs, title = drive_xof("keccaxof", "KeccaXOF"); emit(rep, ip, title, ("typestate", "length"))
    for mod, cls in ((None, None),) + tuple(XOFS.items()):
        ip, rs, title, env = drive_h2p(mod, cls, 512, False); emit(rep, ip, title, ("order", "typestate"), ("order", "typestate"))
    for mod, cls, kind in SIGNERS:
        for own in (False, True):
            ip, rs, title, env = drive_sign(mod, cls, 512, None, own, kind); emit(rep, ip, title, (), ("typestate", "randomness") if own else ("typestate",))
    from checks.pycli import drive_cli
    for v in ("falcon", "ethfalcon", "falconrec", "epervier"):
        for a in ("sign", "sign_tx"):
            ip, rs, title, ev, ch = drive_cli("sign_cli", a, v); emit(rep, ip, title, (), ("finalised",))

def y02(rep):
    rep.rules("every path of verify and recover: a truthy result requires an accepted encoding of exactly the bytes after the salt", "a bound no larger than the published one on the sum of squares of every centred coefficient of both halves",
              "recovery: the 3-byte hint words times the transformed second half compared with one for every coefficient; the key is the low 20 bytes of Keccak-256 of (hash - s0) times the hint", "the hash is of the message and the salt in the signature with the requested XOF")
    rep.trust(*TRUSTP, *TRUSTE)
    for mod, cls, fn, kind in VERIFIERS:
        for n in (512, 1024, 64, 256):
            for x in HASHES:
                if x and n not in (512, 1024): continue
                ip, rs, title, env = drive_verify(mod, cls, fn, n, x, kind)
                emit(rep, ip, title, ("decoded", "norm", "bound", "hashing", "encoding") + (("hint", "key") if kind == "recover" else ()))

def y04(rep):
    rep.rules("every path of sign, for every outcome of sampler and encoder: a signature leaves only if a bound no larger than the published one holds for the sum of squares of every coefficient of both halves", "what is encoded is the sampled vector, and the encoder accepted it",
              "recovery modes: every coefficient of the transformed second half is non-zero, the hint is its inverse", "the salt in the output is the salt hashed; salt and sampler randomness come from the caller's source")
    rep.trust(*TRUSTP, *TRUSTE)
    for mod, cls, kind in SIGNERS:
        for n in (512, 1024, 64, 256):
            for x in HASHES:
                for own in (False, True):
                    if n not in (512, 1024) and (x or own): continue
                    ip, rs, title, env = drive_sign(mod, cls, n, x, own, kind)
                    emit(rep, ip, title, ("layout", "salt", "encoded", "norm", "bound", "randomness", "hashing") + (("invertible", "hint") if kind == "recover" else ()))

def y07(rep):
    rep.rules("every path of hash_to_point: 2-byte big-endian samples in stream order, kept exactly when below floor(2^16/q)*q, stored reduced modulo q one after the other until there are n", "salt (for Blake2s: its digest) then message are absorbed before the one finalisation, with the requested XOF")
    rep.trust(*TRUSTP, "termination of the rejection loop (probability one) is not claimed")
    for n in (512, 1024, 64, 256):
        for mod, cls in ((None, None),) + tuple(XOFS.items()):
            for inst in (False, True) if cls and cls != "Blake2sPRNG" and n == 512 else (False,):
                ip, rs, title, env = drive_h2p(mod, cls, n, inst)
                emit(rep, ip, title, ("samples", "rejection", "reduction", "place", "count", "order", "typestate"))

# ------------------------------------------------------------------ typestate of the XOFs
XOFDRV = '''
def refusals(p, A):
    if nondet():
        try:
            p.update(chunk(A))
        except Exception:
            return
        late()
    else:
        try:
            p.flip()
        except Exception:
            return
        twice()

def run():
    p = XOF.new()
    A = 0
    while nondet():
        d = chunk(A)
        p.update(d)
        A += len(d)
    if nondet():
        try:
            p.read(some())
        except Exception:
            return 0
        early()
        return 0
    p.flip()
    while nondet():
        refusals(p, A)
    if nondet():
        return 1
    n = some()
    out = p.read(n)
    check(out, n, A, 0)
    D = n
    while nondet():
        if nondet():
            refusals(p, A)
        else:
            n = some()
            out = p.read(n)
            check(out, n, A, D)
            D += n
    return 1
'''
def drive_xof(mod, cls, sponge=None):
    "a client that absorbs any chunks, finalises and reads any lengths in any order; sponge: (rate, domain byte) of the stream that must come out"
    from checks.pyref import Lib
    title = "%s.%s" % (mod, cls); ip, env = mkip(title); hooks = ip.hooks; mh = dict(ip.mhooks); lib = Lib(ip)
    for k, v in mh.items():
        if k in ("update", "digest"): continue
        ip.mhooks[k] = v
    m = ip.module(mod)
    if cls not in m.env: raise Unsup("%s has no %s" % (mod, cls))
    def hexdigest(ip, st, o, a, kw):
        if not lib.mine(st, o): return None
        (st, d), = lib.digest(ip, st, o, a, kw)
        src = ip.src_term(T("hexof", d), 48, 102)
        return [(st, S("str", [("s", src, lconst(0), lconst(64))]))]
    ip.mhooks["hexdigest"] = hexdigest
    def fromhex(ip, st, a, kw):
        s = ip.seq(a[-1], st); n = st.norm(slen(s)) if s is not None else None
        if n is None or n[0] % 2 or any(c % 2 for c in n[1].values()): ip.oblige("length", False, title, "an odd number of hexadecimal digits: %s" % (show(n) if n else show(a[-1]))); n = (0, {})
        return [(st, S("bytes", [("s", ip.src_term(T("unhex", ip.val(a[-1], st)), 0, 255), lconst(0), (n[0] // 2, {t: c // 2 for t, c in n[1].items()}))]))]
    hooks["builtins.bytes.fromhex"] = fromhex
    hooks["eth_abi.packed.encode_packed"] = lambda ip, st, a, kw: [(st, S("bytes", [("s", ip.src_term(T("packed", ip.val(a[1], st)), 0, 255), lconst(0), fresh_n("plen"))]))]
    def bad(msg):
        def f(ip, st, a, kw): ip.oblige("typestate", False, title, msg); return [(st, NONE)]
        return f
    def check(ip, st, a, kw):
        out, n, A, D = a; s = ip.seq(out, st)
        ip.oblige("length", s is not None and st.zero(ladd(slen(s), n.lin, -1)), title, "read(n) returns %s bytes" % (show(st.norm(slen(s))) if s is not None else "no"))
        if sponge is None or s is None: return [(st, NONE)]
        pos = D.lin
        for p in Gen.tidy(None, s.p, st):
            sp = getattr(p[1], "sponge", None) if p[0] == "s" else None
            ok = sp is not None and sp[:2] == sponge
            ip.oblige("stream", ok, title, "output is not squeezed from the sponge of rate %d and domain byte %#x" % sponge)
            if not ok: break
            ip.oblige("stream", st.zero(ladd(p[2], pos, -1)), title, "byte %s of the stream is delivered at place %s" % (show(p[2]), show(pos))); pos = ladd(pos, p[3])
            d = Gen.tidy(None, sp[2].p, st)
            ip.oblige("absorbed", len(d) <= 1 and all(x[0] == "s" and x[1] is lib.IN and st.zero(x[2]) and st.zero(ladd(x[3], A.lin, -1)) for x in d) and bool(d or st.zero(A.lin)), title, "what was absorbed is not exactly the input: %s" % show(sp[2])[:150])
        return [(st, NONE)]
    hooks.update({"driver.check": check, "driver.early": bad("output before finalisation"), "driver.late": bad("input after finalisation is accepted"), "driver.twice": bad("finalising twice is accepted")})
    dm = driver(ip, XOFDRV, {"XOF": m.env[cls], **{k: Ext("driver." + k) for k in ("nondet", "chunk", "some", "check", "early", "late", "twice")}})
    rs = ip.call(dm.env["run"], [], {}, St())
    for st, v in rs:
        if isinstance(v, Exc): ip.oblige("exception", False, title, "a call in the right order is refused: %s at %s" % (v.name, v.where))
    ip.oblige("typestate", any(const(v) == 1 for st, v in rs), title, "no path finalises and reads")
    return ip, rs, title
