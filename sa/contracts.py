"""Contracts of the C library functions, used in place of their bodies when a caller is analysed.

Each contract checks what the callee needs (buffer sizes, degree, initialised and reduced operands, call order of the
hash contexts) as obligations at the call site, and returns one abstract state per outcome.  Results are symbolic:
the i-th element produced by a call is a symbol that names the call, its inputs and i, so that a caller can be
checked for using exactly the right data.  The contracts are themselves decided by the checks of the library
functions (C01, C03-C09, C14, C16)."""
from .values import *
from .state import *
from .interp import Dead, GiveUp

PFX = "falcon_inner_"
N = 512
L_SECRET = 1 << 0       # private key bytes and what is decoded from them
L_SEED = 1 << 1         # sampler / key-generation seed bytes and generator states
L_NONCE = 1 << 2

class Group:
    """a family of symbols produced by one call: kind and inputs are recorded in desc"""
    def __init__(self, gid, kind, desc, site, n, lo, hi, w, lab):
        self.id = gid; self.kind = kind; self.desc = desc; self.site = site; self.n = n
        self.syms = [Sym("%s[%d]" % (kind, i), lo, hi, lab, (self, i)) for i in range(n)]
        self.w = w; self.lo = lo; self.hi = hi; self.lab = lab
        self.vals = [V(w, lo, hi, (0, {s: 1}), w, lab=lab) for s in self.syms]
    def __repr__(self):
        return "%s@%s" % (self.kind, self.site)

def fz(x):
    """hashable key of a description"""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict): return lkey(x)
    if isinstance(x, (tuple, list)): return tuple(fz(y) for y in x)
    if isinstance(x, Group): return ("G", x.id)
    if isinstance(x, V): return ("V", x.lo, x.hi, lkey(x.lin) if x.lin else None)
    if isinstance(x, P): return ("P", x.obj, fz(x.off))
    return x

class Contracts:
    def __init__(self, ip):
        self.ip = ip
        self.groups = {}
        self.nobj = 0
        self.calls = []          # (function, site) seen
        for n in dir(self):
            if n.startswith("h_"):
                self.reg(PFX + n[2:], getattr(self, n))
        ip.pair = self.pair; ip.elem = self.one
        for n in ("memcmp", "bcmp"): ip.hooks[n] = self.wrap(n, self.memcmp)
        ip.hooks["randombytes"] = self.wrap("randombytes", self.randombytes)
    def reg(self, name, fn):
        self.ip.hooks[name] = self.wrap(name, fn)
    def wrap(self, name, fn):
        def h(ip, st, args, ctx):
            self.calls.append((name, ip.where(ctx)))
            ip.ob["contract-call"] += 1
            return fn(st, ctx, *args)
        return h

    # ------------------------------------------------------------ helpers
    def one(self, v):
        """v is exactly the i-th element of a group: (group, i)"""
        l = v.lin
        if l is None or l[0] or len(l[1]) != 1 or v.lm != v.w or v.lo < 0: return None
        (s, c), = l[1].items()
        if c != 1 or not isinstance(s.org, tuple) or not isinstance(s.org[0], Group): return None
        if s.hi >= (1 << v.w): return None           # only a part of the element
        return s.org
    def pair(self, a, b, st):
        x, y = self.one(a), self.one(b)
        if x is None or y is None or x[1] != y[1] or x[0] is y[0] or x[0].n != y[0].n: return None
        i, j = sorted((x[0].id, y[0].id))
        return {(i, j, x[0].n): 1 << x[1]}
    def memcmp(self, st, ctx, p, q, n):
        ip = self.ip
        lo, hi = st.ur(n); ip.lin(n)
        nl = st.ulin(n) or (hi, {})
        if hi > 0:
            for x in (p, q): ip.access(st, x, nl, ctx, False)
        ne = st.fork()
        d = {}
        if lo == hi and p.off.lo == p.off.hi and q.off.lo == q.off.hi:
            a, b = st.mem[p.obj], st.mem[q.obj]
            i = 0
            while i < hi:
                x, y = a.cells.get(p.off.lo + i), b.cells.get(q.off.lo + i)
                if x is None or y is None or x[0] != y[0] or i + x[0] > hi: i += 1; continue
                if isinstance(x[1], V) and isinstance(y[1], V):
                    e = self.pair(x[1], y[1], st)
                    if e: d = ip.zunion(d, e)
                i += x[0]
        ip.apply_zero(st, d)
        return [(st, C(32, 0)), (ne, V(32, 1, (1 << 31) - 1)), (ne.fork(), V(32, -(1 << 31), -1))]
    def bad(self, kind, ctx, msg):
        self.ip.alarm(kind, ctx, msg)
    def need(self, kind, ok, ctx, msg):
        return self.ip.oblige(kind, ok, ctx, msg)
    def group(self, st, ctx, kind, desc, n, lo, hi, w, lab=0):
        ip = self.ip
        site = ip.where(ctx)
        path = tuple(ip.where((f, None)) for f, _ in ip.stack)
        key = (kind, site, path, fz(desc))
        g = self.groups.get(key)
        if g is None:
            g = self.groups[key] = Group(len(self.groups), kind, desc, site, n, lo, hi, w, lab)
            return g
        # the same call again: whatever an earlier execution of it left behind is no longer this result
        mine = set(g.syms)
        for on in list(st.mem):
            o = st.mem[on]
            hit = [k for k, (sz, v) in o.cells.items() if isinstance(v, V) and
                   (v.lin is not None and any(s in mine for s in v.lin[1]) or v.cq is not None and any(s in mine for s in v.cq[1]))]
            if hit:
                o = st.w(on)
                for k in hit:
                    sz, v = o.cells[k]
                    o.cells[k] = (sz, V(v.w, v.lo, v.hi, lab=v.lab))
        st.facts = [f for f in st.facts if not any(s in mine for s in f[1])]
        return g
    def logn9(self, v, ctx, fn):
        self.need("degree", isinstance(v, V) and v.const() and v.cval() == 9, ctx, "%s called with a degree other than 512" % fn)
    def put(self, st, p, g, ctx):
        """write group g at p"""
        sz = g.w // 8
        o, c, L = self.ip.access(st, p, g.n * sz, ctx, True)
        self.stored(st, o, c, L, (g.n * sz, {}), ("group", g), ctx)
        o = st.w(p.obj); o.written = True
        if c is None:
            self.ip.write_range(st, o, L, (g.n * sz, {}), sz, V(g.w, g.lo, g.hi, lab=g.lab), None)
            return
        self.ip.clear(st, o, c, g.n * sz)
        for i in range(g.n): o.cells[c + i * sz] = (sz, g.vals[i])
    def stored(self, st, o, c, L, n, v, ctx):
        if self.ip.on_store: self.ip.on_store(self.ip, st, o, c, L, n, v, ctx)
    def scratch(self, st, p, n, ctx, lab=0):
        """p[0..n) is overwritten with unknown data; reading it back before writing is an error"""
        o, c, L = self.ip.access(st, p, n, ctx, True)
        o = st.w(p.obj); o.written = True
        if c is None: raise GiveUp("scratch buffer at a symbolic offset")
        if isinstance(n, int): self.ip.clear(st, o, c, n)
        else: o.smear = (o.smear or 0) | lab
    def get(self, st, p, n, sz, ctx, lo, hi, what):
        """elements at p; returns their description: (group, scale) or None"""
        ip = self.ip
        self.ip.access(st, p, n * sz, ctx, False)
        g = None; k = None; ok = True; lab = 0; rng_ok = True
        o = st.mem[p.obj]
        off = p.off
        if off.lo != off.hi:
            ok = False; rng_ok = False
        else:
            base = off.lo
            for i in range(n):
                x = o.cells.get(base + i * sz)
                if x is None or x[0] != sz or not isinstance(x[1], V):
                    v = ip.load_const(st, o, base + i * sz, sz, 8 * sz, False, ctx)
                    o = st.mem[p.obj]
                    if not isinstance(v, V): ok = rng_ok = False; break
                else: v = x[1]
                lab |= v.lab
                a, b = st.rng(v)
                if a < lo or b > hi: rng_ok = False
                if not ok: continue
                l = v.lin
                kk = 1
                s = None
                if l is not None and v.lm == v.w and l[0] == 0 and len(l[1]) == 1:
                    (s, cc), = l[1].items()
                    if cc != 1 or not isinstance(s.org, tuple) or not isinstance(s.org[0], Group): s = None
                if s is None and v.cq is not None and v.cq[0] == 0 and len(v.cq[1]) == 1:
                    (s, kk), = v.cq[1].items()
                if s is None or not isinstance(s.org, tuple) or not isinstance(s.org[0], Group) or s.org[1] != i:
                    ok = False; continue
                if i == 0: g, k = s.org[0], kk
                elif s.org[0] is not g or kk != k: ok = False
        if lo is not None and what:
            self.need("operand-range", rng_ok, ctx, "%s: an element may lie outside [%d,%d]" % (what, lo, hi))
        if ok and g is not None and g.n == n: return (g, k), lab
        return None, lab
    def readable(self, st, p, n, ctx):
        """n: V(64) byte count"""
        ip = self.ip
        lo, hi = st.ur(n)
        if hi == 0: return (0, {})
        ip.lin(n)
        nl = st.ulin(n) or (hi, {})
        ip.access(st, p, nl, ctx, False)
        return nl
    def ret(self, w, v): return C(w, v)
    def newobj(self, st, name, size, desc, lab=0):
        """a virtual read-only byte string produced by a call"""
        o = Obj(name, size, "input", ro=True, lab=lab, desc=desc)
        st.mem[name] = o
        return name
    def plin(self, st, p):
        """linear offset of p"""
        if not isinstance(p, P) or p.obj is None: return None
        self.ip.lin(p.off)
        return st.slin(p.off)

    # ------------------------------------------------------------ decoders
    def decode(self, st, ctx, kind, x, inp, mx, w, lo, hi, fixed, lab=0, extra=()):
        ip = self.ip
        nl = self.readable(st, inp, mx, ctx)
        off = self.plin(st, inp)
        if nl[1] or nl[0] > 0:
            src = st.mem[inp.obj]
            lab |= ip.range_lab(src)
        out = []
        fs = st.fork()
        ip.access(fs, x, N * w // 8, ctx, True)
        o = fs.w(x.obj)
        self.stored(fs, o, None, self.plin(fs, x), (N * w // 8, {}), None, ctx)
        o.written = True
        if x.off.lo == x.off.hi: ip.clear(fs, o, x.off.lo, N * w // 8)
        fs.ev = self.evset(fs.ev, kind, "fail")
        out.append((fs, C(64, 0)))
        ok = st.fork()
        if fixed is not None:
            if not ok.add_fact(ladd(nl, lconst(-fixed))): return out
            r = C(64, fixed); nl = (fixed, {})
        else:
            key = ("len", kind, ip.where(ctx), fz(off), fz(nl))
            s = self.groups.get(key)
            if s is None:
                h = ok.leval(nl)[1]
                if h < 1: return out
                s = self.groups[key] = Sym("consumed", 1, h)
            if not ok.add_fact(ladd(nl, (0, {s: 1}), -1)): return out
            r = V(64, s.lo, s.hi, (0, {s: 1}), 64)
            nl = (0, {s: 1})
        g = self.group(ok, ctx, kind, (inp.obj, off, nl) + tuple(extra), N, lo, hi, w, lab)
        self.put(ok, x, g, ctx)
        ok.ev = self.evset(ok.ev, kind, "ok")
        out.append((ok, r))
        return out
    def evset(self, ev, k, v):
        """record the outcome v of step k (numbered per occurrence)"""
        return tuple(x for x in ev if x[0] != k) + ((k, v),)
    def h_modq_decode(self, st, ctx, x, logn, inp, mx):
        self.logn9(logn, ctx, "modq_decode")
        return self.decode(st, ctx, "modq_decode", x, inp, mx, 16, 0, Q - 1, 896)
    def h_modq_decode16(self, st, ctx, x, logn, inp, mx):
        self.logn9(logn, ctx, "modq_decode16")
        return self.decode(st, ctx, "modq_decode16", x, inp, mx, 16, 0, Q - 1, 1024)
    def h_comp_decode(self, st, ctx, x, logn, inp, mx):
        self.logn9(logn, ctx, "comp_decode")
        return self.decode(st, ctx, "comp_decode", x, inp, mx, 16, -2047, 2047, None)
    def h_comp_decode16(self, st, ctx, x, logn, inp, mx):
        self.logn9(logn, ctx, "comp_decode16")
        return self.decode(st, ctx, "comp_decode16", x, inp, mx, 16, -(Q - 1), Q - 1, 1024)
    def h_trim_i8_decode(self, st, ctx, x, logn, bits, inp, mx):
        self.logn9(logn, ctx, "trim_i8_decode")
        if not bits.const(): raise GiveUp("coefficient width not constant")
        b = bits.cval()
        m = (1 << (b - 1)) - 1
        return self.decode(st, ctx, "trim_i8_decode", x, inp, mx, 8, -m, m, (N * b + 7) >> 3, L_SECRET, (b,))

    # ------------------------------------------------------------ encoders
    def encode(self, st, ctx, kind, out, mx, x, sz, lo, hi, fixed, extra=()):
        ip = self.ip
        src, lab = self.get(st, x, N, sz, ctx, -(1 << 63), 1 << 63, None)
        allin = True
        o = st.mem[x.obj]
        b = x.off.lo
        for i in range(N):
            v = o.cells.get(b + i * sz)
            if v is None or v[0] != sz or not isinstance(v[1], V): allin = False; break
            a, c = st.rng(v[1])
            if a < lo or c > hi: allin = False; break
        mlo, mhi = st.ur(mx)
        ip.lin(mx)
        ml = st.ulin(mx) or (mhi, {})
        if mhi > 0: ip.access(st, out, ml, ctx, True)
        res = []
        if not (fixed is not None and allin and st.prove(ladd(ml, lconst(-fixed)))):
            f = st.fork()
            fo = f.w(out.obj)
            if mhi > 0:
                fo.written = True
                self.stored(f, fo, None, self.plin(f, out), ml, None, ctx)
                if out.off.lo == out.off.hi and not ml[1]: ip.clear(f, fo, out.off.lo, ml[0])
                else: fo.smear = (fo.smear or 0) | lab
            f.ev = self.evset(f.ev, kind, "fail")
            res.append((f, C(64, 0)))
        ok = st.fork()
        if fixed is not None:
            if not ok.add_fact(ladd(ml, lconst(-fixed))): return res
            g = self.group(ok, ctx, kind, (src,) + tuple(extra), fixed, 0, 255, 8, lab)
            self.put(ok, out, g, ctx)
            r = C(64, fixed)
        else:
            if mhi < 1: return res
            key = ("enclen", kind, ip.where(ctx), fz(ml))
            s = self.groups.get(key)
            if s is None: s = self.groups[key] = Sym("enclen", 1, mhi, lab)
            s = self.fresh_again(ok, s)
            if not ok.add_fact(ladd(ml, (0, {s: 1}), -1)): return res
            r = V(64, s.lo, s.hi, (0, {s: 1}), 64, lab=lab)
            nm = "$%s@%s#%s" % (kind, ip.where(ctx), self.gkey(src))
            self.newobj(ok, nm, (0, {s: 1}), "encoding of " + repr(src), lab)
            ok.mem[nm].sym = {}
            self.enc = getattr(self, "enc", {}); self.enc[nm] = (kind, src)
            L = self.plin(ok, out)
            oo = ok.w(out.obj); oo.written = True
            self.stored(ok, oo, None, L, (0, {s: 1}), ("enc", nm), ctx)
            # the bytes between the returned length and the capacity may have been written too
            if out.off.lo == out.off.hi and not ml[1]: ip.clear(ok, oo, out.off.lo, ml[0])
            ip.write_range(ok, oo, L, (0, {s: 1}), 1, top(8, lab), (nm, lscale(L, -1)))
        ok.ev = self.evset(ok.ev, kind, "ok")
        res.append((ok, r))
        return res
    def gkey(self, src): return "%d" % src[0].id if src else "?"
    def fresh_again(self, st, s):
        st.facts = [f for f in st.facts if s not in f[1]]
        st.sb.pop(s, None)
        return s
    def h_modq_encode(self, st, ctx, out, mx, x, logn):
        self.logn9(logn, ctx, "modq_encode")
        return self.encode(st, ctx, "modq_encode", out, mx, x, 2, 0, Q - 1, 896)
    def h_modq_encode16(self, st, ctx, out, mx, x, logn):
        self.logn9(logn, ctx, "modq_encode16")
        return self.encode(st, ctx, "modq_encode16", out, mx, x, 2, 0, Q - 1, 1024)
    def h_comp_encode(self, st, ctx, out, mx, x, logn):
        self.logn9(logn, ctx, "comp_encode")
        return self.encode(st, ctx, "comp_encode", out, mx, x, 2, -2047, 2047, None)
    def h_comp_encode16(self, st, ctx, out, mx, x, logn):
        self.logn9(logn, ctx, "comp_encode16")
        return self.encode(st, ctx, "comp_encode16", out, mx, x, 2, -(Q - 1), Q - 1, 1024)
    def h_trim_i8_encode(self, st, ctx, out, mx, x, logn, bits):
        self.logn9(logn, ctx, "trim_i8_encode")
        if not bits.const(): raise GiveUp("coefficient width not constant")
        b = bits.cval(); m = (1 << (b - 1)) - 1
        return self.encode(st, ctx, "trim_i8_encode", out, mx, x, 1, -m, m, (N * b + 7) >> 3, (b,))

    # ------------------------------------------------------------ hash contexts (typestate)
    def hk(self, st, p):
        return ("hash", p.obj, fz(p.off))
    def hinit(self, st, ctx, p, kind, size):
        self.ip.access(st, p, 1, ctx, True)
        o = st.w(p.obj); o.written = True
        if p.off.lo == p.off.hi and not o.size[1]: self.ip.clear(st, o, p.off.lo, min(size, o.size[0] - p.off.lo))
        st.mon[self.hk(st, p)] = (kind, "absorb", ())
    def content(self, st, ctx, p, nl):
        """describe nl bytes at p"""
        if not nl[1] and nl[0] == 0: return ()
        o = st.mem[p.obj]; off = self.plin(st, p)
        if o.default == "input" and not o.written and off is not None:
            return (("range", p.obj, off, nl),)
        if not nl[1] and off is not None and not off[1] and nl[0] <= 4096:
            bs = []
            for i in range(nl[0]):
                v = self.ip.load_const(st, st.mem[p.obj], off[0] + i, 1, 8, False, ctx)
                if isinstance(v, V) and v.lin is not None and v.lin[0] == 0 and len(v.lin[1]) == 1 and list(v.lin[1].values()) == [1]:
                    bs.append(next(iter(v.lin[1])))
                else: bs.append(("?", v.lo, v.hi) if isinstance(v, V) else None)
            return (("bytes", tuple(bs)),)
        self.ip.check_init_range(st, o, off, nl, ctx)
        for s in o.segs:
            if off is not None and s.prov is not None and st.prove(ladd(off, s.start, -1)) and st.prove(ladd(s.end, ladd(off, nl), -1)):
                return (("range", s.prov[0], ladd(s.prov[1], off), nl),)
        return (("unknown", p.obj),)
    def hinject(self, st, ctx, p, data, n, kind):
        k = self.hk(st, p); m = st.mon.get(k)
        nl = self.readable(st, data, n, ctx)
        if not self.need("hash-order", m is not None and m[0] == kind and m[1] == "absorb", ctx,
                         "data absorbed by a hash context that is not open for absorbing"):
            st.mon[k] = (kind, "bad", ()); return
        seg = self.content(st, ctx, data, nl)
        lab = self.ip.range_lab(st.mem[data.obj]) if isinstance(data, P) and data.obj in st.mem else 0
        segs = m[2]
        if segs and seg and segs[-1][0] == "range" and seg[0][0] == "range" and segs[-1][1] == seg[0][1] and \
           st.prove_eq(ladd(segs[-1][2], segs[-1][3]), seg[0][2]):
            segs = segs[:-1] + (("range", seg[0][1], segs[-1][2], ladd(segs[-1][3], seg[0][3])),)
            seg = ()
        elif segs and seg and segs[-1][0] == "bytes" and seg[0][0] == "bytes":
            segs = segs[:-1] + (("bytes", segs[-1][1] + seg[0][1]),); seg = ()
        st.mon[k] = (kind, "absorb", segs + seg)
        st.mon[("lab",) + k] = st.mon.get(("lab",) + k, 0) | lab
    def hflip(self, st, ctx, p, kind):
        k = self.hk(st, p); m = st.mon.get(k)
        ok = self.need("hash-order", m is not None and m[0] == kind and m[1] == "absorb", ctx, "hash context finalised twice or before initialisation")
        st.mon[k] = (kind, "ready" if ok else "bad", m[2] if m else ())
    def hready(self, st, ctx, p, kind, who):
        m = st.mon.get(self.hk(st, p))
        self.need("hash-order", m is not None and m[0] == kind and m[1] == "ready", ctx,
                  "%s reads a hash context that was not initialised and finalised" % who)
        return m
    def hused(self, st, p, m):
        """reading advances the stream: what is read later is not the start of it"""
        if m is not None: st.mon[self.hk(st, p)] = (m[0], "ready", m[2] + (("read",),) if not m[2] or m[2][-1] != ("read",) else m[2])
    def h_i_shake256_init(self, st, ctx, p):
        self.hinit(st, ctx, p, "shake", 208); return [(st, None)]
    def h_i_shake256_inject(self, st, ctx, p, data, n):
        self.hinject(st, ctx, p, data, n, "shake"); return [(st, None)]
    def h_i_shake256_flip(self, st, ctx, p):
        self.hflip(st, ctx, p, "shake"); return [(st, None)]
    def h_i_shake256_extract(self, st, ctx, p, out, n):
        m = self.hready(st, ctx, p, "shake", "extract")
        return self.hextract(st, ctx, p, out, n, m, None)
    def hextract(self, st, ctx, p, out, n, m, ret):
        lo, hi = st.ur(n); self.ip.lin(n); nl = st.ulin(n) or (hi, {})
        if hi > 0:
            self.ip.access(st, out, nl, ctx, True)
            o = st.w(out.obj); o.written = True
            lab = st.mon.get(("lab",) + self.hk(st, p), 0)
            self.ip.write_range(st, o, self.plin(st, out), nl, 1, top(8, lab), None)
        self.hused(st, p, m)
        return [(st, ret)]
    def h_i_keccak256_init(self, st, ctx, p):
        self.hinit(st, ctx, p, "keccak", 4208); return [(st, C(32, 0))]
    def h_i_keccak256_inject(self, st, ctx, p, data, n):
        bad = st.fork()
        self.readable(bad, data, n, ctx)
        k = self.hk(bad, p); m = bad.mon.get(k)
        # the data does not fit: an error is returned and nothing absorbed
        bad.mon[k] = ("keccak", m[1] if m else "bad", (m[2] if m else ()) + (("dropped",),))
        bad.ev = self.evset(bad.ev, "absorb", "fail")
        self.hinject(st, ctx, p, data, n, "keccak")
        return [(bad, C(32, -3)), (st, C(32, 0))]
    def h_i_keccak256_flip(self, st, ctx, p):
        self.hflip(st, ctx, p, "keccak"); return [(st, C(32, 0))]
    def h_i_keccak256_extract(self, st, ctx, p, out, n):
        m = self.hready(st, ctx, p, "keccak", "extract")
        return self.hextract(st, ctx, p, out, n, m, C(32, 0))
    def topoint(self, st, ctx, p, x, logn, kind):
        self.logn9(logn, ctx, "hash_to_point")
        m = self.hready(st, ctx, p, kind, "hash_to_point")
        g = self.group(st, ctx, "hash_to_point", (kind, m[2] if m else None), N, 0, Q - 1, 16, st.mon.get(("lab",) + self.hk(st, p), 0))
        self.put(st, x, g, ctx)
        self.hused(st, p, m)
        return [(st, None)]
    def h_hash_to_point_vartime(self, st, ctx, p, x, logn): return self.topoint(st, ctx, p, x, logn, "shake")
    def h_hash_to_point_ct(self, st, ctx, p, x, logn, tmp):
        self.scratch(st, tmp, 2 * N, ctx)
        return self.topoint(st, ctx, p, x, logn, "shake")
    def h_keccak_hash_to_point_vartime(self, st, ctx, p, x, logn): return self.topoint(st, ctx, p, x, logn, "keccak")

    # ------------------------------------------------------------ polynomial arithmetic
    def inplace(self, st, ctx, h, logn, kind):
        self.logn9(logn, ctx, kind)
        src, lab = self.get(st, h, N, 2, ctx, 0, Q - 1, kind)
        g = self.group(st, ctx, kind, (src,), N, 0, Q - 1, 16, lab)
        self.put(st, h, g, ctx)
        return [(st, None)]
    def h_to_ntt_monty(self, st, ctx, h, logn): return self.inplace(st, ctx, h, logn, "to_ntt_monty")
    def h_to_ntt(self, st, ctx, h, logn): return self.inplace(st, ctx, h, logn, "to_ntt")
    def h_verify_raw(self, st, ctx, c0, s2, h, logn, tmp):
        self.logn9(logn, ctx, "verify_raw")
        a, _ = self.get(st, c0, N, 2, ctx, 0, Q - 1, "verify_raw hash")
        b, _ = self.get(st, s2, N, 2, ctx, -(Q - 1), Q - 1, "verify_raw signature")
        c, _ = self.get(st, h, N, 2, ctx, 0, Q - 1, "verify_raw key")
        self.scratch(st, tmp, 2 * N, ctx)
        return self.verdict(st, ctx, "verify_raw", (a, b, c))
    def verdict(self, st, ctx, kind, desc, wr=None):
        no = st.fork()
        yes = st
        no.ev = self.evset(no.ev, kind, "fail"); yes.ev = self.evset(yes.ev, kind, "ok")
        for s, r in ((no, 0), (yes, 1)):
            if wr: wr(s)
            s.mon[("args", kind)] = desc if r else None
        return [(no, C(32, 0)), (yes, C(32, 1))]
    def recover(self, st, ctx, h, c0, s1, s2, logn, tmp, kind):
        self.logn9(logn, ctx, kind)
        a, _ = self.get(st, c0, N, 2, ctx, 0, Q - 1, kind + " hash")
        b, _ = self.get(st, s1, N, 2, ctx, -(Q - 1), Q - 1, kind + " first half")
        c, _ = self.get(st, s2, N, 2, ctx, -(Q - 1), Q - 1, kind + " second half")
        self.scratch(st, tmp, 2 * N, ctx)
        g = self.group(st, ctx, kind, (a, b, c), N, 0, Q - 1, 16)
        self.put(st, h, g, ctx)
        return self.verdict(st, ctx, kind, (a, b, c))
    def h_verify_recover(self, st, ctx, *a): return self.recover(st, ctx, *a, "verify_recover")
    def h_verify_recover_epervier(self, st, ctx, *a): return self.recover(st, ctx, *a, "verify_recover_epervier")
    def h_is_invertible(self, st, ctx, s2, logn, tmp):
        self.logn9(logn, ctx, "is_invertible")
        a, _ = self.get(st, s2, N, 2, ctx, -(Q - 1), Q - 1, None)
        self.scratch(st, tmp, 2 * N, ctx)
        return self.verdict(st, ctx, "is_invertible", (a,))
    def h_count_nttzero(self, st, ctx, s2, logn, tmp):
        self.logn9(logn, ctx, "count_nttzero")
        self.get(st, s2, N, 2, ctx, -(Q - 1), Q - 1, None)
        self.scratch(st, tmp, 2 * N, ctx)
        return [(st, V(32, 0, N))]
    def h_hint_epervier(self, st, ctx, s2, logn):
        self.logn9(logn, ctx, "hint_epervier")
        a, lab = self.get(st, s2, N, 2, ctx, -(Q - 1), Q - 1, None)
        g = self.group(st, ctx, "hint", (a,), 1, 0, Q - 1, 16, lab)
        return [(st, g.vals[0])]
    def h_complete_private(self, st, ctx, G, f, g, F, logn, tmp):
        self.logn9(logn, ctx, "complete_private")
        d = []
        for p, nm in ((f, "f"), (g, "g"), (F, "F")):
            x, _ = self.get(st, p, N, 1, ctx, -127, 127, "complete_private " + nm); d.append(x)
        self.scratch(st, tmp, 4 * N, ctx, L_SECRET)
        no = st.fork()
        self.ip.access(no, G, N, ctx, True)
        o = no.w(G.obj); o.written = True
        if G.off.lo == G.off.hi: self.ip.clear(no, o, G.off.lo, N)
        no.ev = self.evset(no.ev, "complete_private", "fail")
        gr = self.group(st, ctx, "complete_private", tuple(d), N, -127, 127, 8, L_SECRET)
        self.put(st, G, gr, ctx)
        st.ev = self.evset(st.ev, "complete_private", "ok")
        return [(no, C(32, 0)), (st, C(32, 1))]
    def rng_desc(self, st, ctx, rng, who):
        m = self.hready(st, ctx, rng, "shake", who)
        d = m[2] if m else None
        # every use continues the generator's stream
        return d
    def h_sign_dyn(self, st, ctx, sig, rng, f, g, F, G, hm, logn, tmp):
        self.logn9(logn, ctx, "sign_dyn")
        r = self.rng_desc(st, ctx, rng, "sign_dyn")
        d = []
        for p, nm in ((f, "f"), (g, "g"), (F, "F"), (G, "G")):
            x, _ = self.get(st, p, N, 1, ctx, -127, 127, "sign_dyn " + nm); d.append(x)
        x, _ = self.get(st, hm, N, 2, ctx, 0, Q - 1, "sign_dyn hash")
        d.append(x)
        self.ip.access(st, tmp, 72 * N, ctx, True)
        o = st.w(tmp.obj); o.written = True
        if tmp.off.lo != tmp.off.hi: raise GiveUp("scratch buffer at a symbolic offset")
        self.ip.clear(st, o, tmp.off.lo, 72 * N)
        s1 = self.group(st, ctx, "sign_s1", (tuple(d), r), N, -32768, 32767, 16)
        self.put(st, tmp, s1, ctx)
        s2 = self.group(st, ctx, "sign_s2", (tuple(d), r), N, -32768, 32767, 16)
        self.put(st, sig, s2, ctx)
        st.ev = self.evset(st.ev, "sign_dyn", "ok")
        return [(st, None)]
    def h_keygen(self, st, ctx, rng, f, g, F, G, h, logn, tmp):
        self.logn9(logn, ctx, "keygen")
        r = self.rng_desc(st, ctx, rng, "keygen")
        self.scratch(st, tmp, 14336, ctx, L_SECRET)
        for p, nm in ((f, "f"), (g, "g"), (F, "F"), (G, "G")):
            if isinstance(p, P) and p.obj is None: continue
            gr = self.group(st, ctx, "keygen_" + nm, (r,), N, -127, 127, 8, L_SECRET)
            self.put(st, p, gr, ctx)
        if not (isinstance(h, P) and h.obj is None):
            gr = self.group(st, ctx, "keygen_h", (r,), N, 0, Q - 1, 16)
            self.put(st, h, gr, ctx)
        self.hused(st, rng, st.mon.get(self.hk(st, rng)))
        return [(st, None)]
    def randombytes(self, st, ctx, x, n):
        lo, hi = st.ur(n)
        if lo != hi or hi > 65536: raise GiveUp("random request of unbounded size")
        if hi == 0: return [(st, C(32, 0))]
        site = self.ip.where(ctx)
        self.rsites = getattr(self, "rsites", [])
        if site not in self.rsites: self.rsites.append(site)
        g = self.group(st, ctx, "random", (hi, x.obj), hi, 0, 255, 8, 1 << (8 + self.rsites.index(site)))
        self.put(st, x, g, ctx)
        return [(st, C(32, 0))]
