"""Abstract interpreter for the LLVM IR of the C sources.

Works on the abstract domain of values.py/state.py.  Nothing is executed: every instruction is evaluated on sets of
values; loops whose trip count is a constant are unrolled on the abstract state, all others are widened to an
inductive invariant.  Clients plug in contracts for callees (hooks), observers and monitors."""
from collections import Counter
import heapq
from .values import *
from .state import *
from . import llvmir as ir
from .join import Joiner

class Split(Exception):
    def __init__(self, v, parts): self.v = v; self.parts = parts

class GiveUp(Exception):
    pass

class Dead(Exception):
    pass

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
       "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}

def with_range(v, lo, hi):
    """copy of v restricted to representatives in [lo,hi] (sub-interval of v's)"""
    r = V(v.w, v.lo, v.hi, v.lin, v.lm, v.bits, v.cq, v.lab, v.cond)
    r.lo = lo; r.hi = hi; r.named = v.named; r.tm = v.tm
    if lo == hi and (r.lin is None or r.lm < r.w or not r.lin[1]):
        r.lin = (lo, {}); r.lm = r.w
    return r

def clip(v, w, lo, hi):
    """intersect representative interval with the words in integer range [lo,hi]; None if empty"""
    M = 1 << w
    best = None
    k0 = (v.lo - hi) // M
    for k in range(k0, k0 + 4):
        x = max(v.lo, lo + k * M); y = min(v.hi, hi + k * M)
        if x <= y:
            best = (x, y) if best is None else (min(best[0], x), max(best[1], y))
    return best

class Interp:
    def __init__(self, mods, track_bits=False, memo=True, unroll_undecided=1, maxkeys=48):
        self.mods = mods
        self.funcs = {}
        self.globals = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.internal: self.funcs[f.name] = f
            for g in m.globals.values():
                if not g.internal and not g.external: self.globals[g.name] = g
        self.track_bits = track_bits
        self.name_words = False; self.names = {}    # give words known as linear forms bits of their own
        self.sign_split = False                     # case split on the sign instead of a bit pattern
        self.memo = memo; self.memo_tab = {}
        self.undec = unroll_undecided
        self.maxkeys = maxkeys
        self.hooks = {}            # name -> fn(interp, st, args, ctx) -> [(st, ret)] | None (fall through)
        self.observe_call = {}     # name -> fn(interp, st, args, ctx)
        self.on_store = None; self.on_load = None; self.on_ret = None; self.on_phi = None
        self.on_enter = None       # fn(interp, st): before a state is joined with others at a block
        self.shr = {}
        self.part_edges = False; self.pivot_big = False; self.hiof = {}
        self.paths = False; self.npath = 0; self.maxpath = 400000
        self.elem = None           # fn(v) -> (group, index) when v is an element of a contract's result
        self.insym = False
        self.pair = None           # fn(a, b, st) -> {key: mask} of element equalities implied by a == b, or None
        self.fresh_input = None    # fn(interp, st, obj, off, size) -> V or None
        self.alarms = {}
        self.ob = Counter()
        self.visited = Counter()   # function -> instructions evaluated
        self.act = 0
        self.steps = 0; self.maxsteps = 40_000_000
        self.stack = []; self.sym_marks = []
        self.quiet = 0; self.choices = 0; self.quot = {}
        self.prod = {}
        self.want_cq = not memo
        self.join_facts = True     # derive relations at joins
        self.mono = False; self.qforms = {}; self.monos = {}
        self.ptr2int = {}
        self.gobj = {}
        self.part_consts = track_bits
        self.terms = False; self.hisyms = {}; self.vers = 0     # value numbering of loads, shifts and xors
        self.joiner = Joiner(self)
        self.widen_consts = {}
        self.limits = set()        # constants that values were compared with

    # -------------------------------------------------------------- reporting
    def where(self, ctx):
        fn, I = ctx
        src = fn.module.source
        ln = fn.module.dbg.get(I.line) if I is not None and I.line is not None else None
        return "%s:%s (%s)" % (src, ln if ln is not None else "?", fn.name)
    def alarm(self, kind, ctx, msg):
        if self.quiet: return
        k = (kind, self.where(ctx))
        if k not in self.alarms:
            self.alarms[k] = msg
    def oblige(self, kind, ok, ctx, msg):
        self.ob[kind] += 1
        if not ok:
            self.alarm(kind, ctx, msg() if callable(msg) else msg)
        return ok

    # -------------------------------------------------------------- globals
    def global_obj(self, mod, name, st):
        g = mod.globals.get(name)
        if g is None or g.external:
            g = self.globals.get(name)
        if g is None: return None
        oname = "@%s:%s" % (g.module.name if g.internal else "", name)
        if oname not in st.mem:
            o = self.gobj.get(oname)
            if o is None:
                sz = ir.size_align(g.ty)[0]
                o = Obj(oname, sz, default="zero", ro=g.const, desc="global " + name)
                if g.init is not None and (g.const or g.init[0] != "zero"):
                    self.fill(o, 0, g.ty, g.init, g.module)
                if not g.const:
                    # a mutable global may hold anything when an entry point is called
                    o.cells = {}; o.default = "top"
                self.gobj[oname] = o
            st.mem[oname] = o
        return oname
    def fill(self, o, off, ty, init, mod):
        k = init[0]
        if k == "c":
            o.cells[off] = (ir.size_align(ty)[0], C(ty.w, init[1]))
        elif k == "bytes":
            for i, b in enumerate(init[1]): o.cells[off + i] = (1, C(8, b))
        elif k == "agg":
            if ty.k in ("arr", "vec"):
                es = ir.size_align(ty.el)[0]
                for i, (t, x) in enumerate(init[1]): self.fill(o, off + i * es, t, x, mod)
            else:
                for i, (t, x) in enumerate(init[1]): self.fill(o, off + ir.field_off(ty, i), t, x, mod)
        elif k == "null":
            o.cells[off] = (8, NULL)
        elif k == "g":
            if init[1] in mod.funcs or init[1] in self.funcs or init[1] in mod.decls:
                o.cells[off] = (8, FP_(init[1]))
            else:
                o.cells[off] = (8, ("global", mod, init[1]))
        elif k in ("zero", "undef"):
            pass
        else:
            o.cells[off] = (8, top(64))

    # -------------------------------------------------------------- operands
    def val(self, o, env, st, mod):
        k = o[0]
        if k == "v":
            r = env.get(o[1])
            if r is None: raise GiveUp("unset variable %%%s" % o[1])
            return r
        if k == "c": return C(o[2], o[1])
        if k == "null": return NULL
        if k == "g":
            n = o[1]
            if n in mod.funcs or (n in self.funcs) or n in mod.decls:
                return FP_(n)
            on = self.global_obj(mod, n, st)
            if on is None: return FP_(n)
            return P(on, C(64, 0))
        if k == "undef":
            if o[1].k == "ptr": return NULL
            return top(o[1].w if o[1].k == "int" else 64)
        if k == "zero":
            return C(o[1].w, 0) if o[1].k == "int" else NULL
        if k == "gep":
            base = self.val(o[2][0][1], env, st, mod)
            return self.gep(o[1], base, [(t, self.val(v, env, st, mod)) for t, v in o[2][1:]], st)
        if k == "cast":
            return self.val(o[2], env, st, mod)
        if k == "md": return None
        raise GiveUp("operand %r" % (o,))

    def gep(self, ty, base, idx, st):
        if not isinstance(base, P):
            raise GiveUp("address computation on a non-pointer")
        off = base.off
        cur = ty
        for n, (t, v) in enumerate(idx):
            if n == 0: es = ir.size_align(cur)[0]
            elif cur.k in ("arr", "vec"):
                cur = cur.el; es = ir.size_align(cur)[0]
            elif cur.k == "struct":
                i = v.cval(); o = ir.field_off(cur, i); cur = cur.els[i]
                if o: off = self.add(off, C(64, o), st)
                continue
            else: raise GiveUp("gep type")
            if v.w < 64: v = self.sext(v, 64, st)
            if v.lo == v.hi:
                if v.lo:
                    x = v.lo if v.lo < (1 << 63) else v.lo - (1 << 64)
                    off = self.add(off, C(64, x * es), st)
            else:
                off = self.add(off, self.mul(v, C(64, es), st), st)
        return P(base.obj, off, base.lab)

    # -------------------------------------------------------------- arithmetic
    def lin(self, v):
        if v.lin is None:
            if v.lo == v.hi:
                v.lin = (v.lo, {}); v.lm = v.w
            else:
                s = Sym("t", v.lo, v.hi, v.lab, ("val", v.bits))
                v.lin = (0, {s: 1}); v.lm = v.w
        return v.lin
    def mk(self, w, lo, hi, lin=None, lm=None, bits=None, cq=None, lab=0):
        if lin is not None:
            if not lin[1] and (lm is None or lm >= w):
                return C(w, lin[0]) if not lab else self.labc(C(w, lin[0]), lab)
            if len(lin[1]) > MAXTERMS: lin = None; lm = None
        return V(w, lo, hi, lin, lm, bits, cq, lab)
    def labc(self, c, lab):
        r = V(c.w, c.lo, c.hi, c.lin, c.lm, c.bits, c.cq, lab); return r

    def add(self, a, b, st, k=1):
        w = a.w
        if a.lo == a.hi and b.lo == b.hi and not (a.lab | b.lab):
            return C(w, a.lo + k * b.lo)
        if b.lo == b.hi and b.lo == 0: return a
        if k == 1 and a.lo == a.hi == 0: return b
        al, ah = st.rng(a); bl, bh = st.rng(b)
        if k == 1: lo, hi = al + bl, ah + bh
        else: lo, hi = al - bh, ah - bl
        la = self.lin(a); lb = self.lin(b)
        l = ladd(la, lb, k); lm = min(a.lm, b.lm)
        cq = None
        if a.cq is not None or b.cq is not None:
            ca = st.getcq(a); cb = st.getcq(b)
            if ca is not None and cb is not None: cq = cq_add(ca, cb, k)
        bits = None
        if self.track_bits:
            if k == -1 and a.lo == a.hi == 0:
                bits = self.neg_bits(self.bits(b, st), w)
            elif k == 1:
                x, y = self.bits(a, st), self.bits(b, st)
                if x is not None and y is not None and all(p == 0 or q == 0 for p, q in zip(x, y)):
                    bits = tuple(q if p == 0 else p for p, q in zip(x, y))
        return self.mk(w, lo, hi, l, lm, bits, cq, a.lab | b.lab)
    def neg_bits(self, x, w):
        if x is None: return None
        nz = [i for i in range(w) if x[i] != 0]
        if len(nz) == 1 and x[nz[0]] is not None:
            i = nz[0]
            return (0,) * i + (x[i],) * (w - i)
        return None
    def sub(self, a, b, st):
        if a is b: return C(a.w, 0)
        return self.add(a, b, st, -1)
    def mul(self, a, b, st):
        w = a.w
        if a.lo == a.hi and not b.lo == b.hi: a, b = b, a
        lab = a.lab | b.lab
        if b.lo == b.hi:
            c = b.lo
            if c == 0: return C(w, 0)
            if a.lo == a.hi: return self.labc(C(w, a.lo * c), lab) if lab else C(w, a.lo * c)
            if c == 1: return a
            al, ah = st.rng(a)
            lo, hi = (al * c, ah * c) if c > 0 else (ah * c, al * c)
            l = lscale(self.lin(a), c); lm = min(w, a.lm + ctz(c, w))
            cq = cq_scale(a.cq, c) if a.cq is not None else (0, {}) if c % Q == 0 else None
            bits = None
            if self.track_bits and c > 0 and c & (c - 1) == 0:
                x = self.bits(a, st)
                if x is not None:
                    n = c.bit_length() - 1
                    bits = (0,) * n + x[:w - n]
            return self.mk(w, lo, hi, l, lm, bits, cq, lab)
        al, ah = st.rng(a); bl, bh = st.rng(b)
        if a is b or (a.lin is not None and b.lin is not None and a.lm == w and b.lm == w and leq(a.lin, b.lin)
                      and al == bl and ah == bh):
            if al <= 0 <= ah: lo, hi = 0, max(al * al, ah * ah)
            else: lo, hi = min(al * al, ah * ah), max(al * al, ah * ah)
        else:
            c = (al * bl, al * bh, ah * bl, ah * bh); lo, hi = min(c), max(c)
        self.lin(a); self.lin(b)
        la, lb = st.rep_lin(a), st.rep_lin(b)
        l = None
        if la is not None and lb is not None and len(la[1]) <= 4 and len(lb[1]) <= 4:
            ka, kb = lkey(la), lkey(lb)
            if ka == kb and ka[1] and ka[1][0][1] < 0: la = lb = lscale(la, -1); ka = kb = lkey(la)
            if kb < ka: ka, kb, la, lb = kb, ka, lb, la
            s = self.prod.get((ka, kb))
            if s is None:
                s = self.prod[(ka, kb)] = Sym("prod", lo, hi, lab, ("mul", la, lb))
            elif s.lo > lo or s.hi < hi:
                s.lo = min(s.lo, lo); s.hi = max(s.hi, hi)
            a0, b0 = st.sbounds(s)
            if a0 < lo or b0 > hi:
                st.sb[s] = (max(lo, a0), min(hi, b0))
            l = (0, {s: 1})
        cq = None
        if self.mono:
            x, y = st.getcq(a), st.getcq(b)
            if x is not None and y is not None: cq = self.cq_mul(x, y)
        return self.mk(w, lo, hi, l, w, None, cq, lab)
    def cq_atom(self, x):
        """a form modulo q as coefficient times a monomial of symbols"""
        if not x[1]: return x[0], ()
        if x[0] == 0 and len(x[1]) == 1:
            (s, c), = x[1].items()
            return c, (s.org[1] if isinstance(s.org, tuple) and s.org[0] == "mono" else ((s, 1),))
        k = lkey(x); s = self.qforms.get(k)
        if s is None: s = self.qforms[k] = Sym("form", 0, Q - 1, 0, ("qform", x))
        return 1, ((s, 1),)
    def cq_mul(self, x, y):
        if not x[1]: return cq_scale(y, x[0])
        if not y[1]: return cq_scale(x, y[0])
        c, m = self.cq_atom(x); d, n = self.cq_atom(y)
        return self.mono_form(c * d, m + n)
    def mono_form(self, c, m):
        t = {}
        for s, e in m: t[s] = t.get(s, 0) + e
        m = tuple(sorted(t.items(), key=lambda z: z[0].id))
        if len(m) == 1 and m[0][1] == 1: s = m[0][0]
        else:
            k = tuple((s.id, e) for s, e in m); s = self.monos.get(k)
            if s is None: s = self.monos[k] = Sym("mono", 0, Q - 1, 0, ("mono", m))
        return (0, {s: c % Q}) if c % Q else (0, {})
    def shl(self, a, n, st):
        return self.mul(a, C(a.w, 1 << n), st) if n else a
    def trunc(self, a, w, st):
        if a.lo == a.hi: return self.labc(C(w, a.lo), a.lab) if a.lab else C(w, a.lo)
        al, ah = st.rng(a)
        l = self.lin(a); lm = min(a.lm, w)
        bits = None
        if self.track_bits:
            x = self.bits(a, st)
            if x is not None: bits = x[:w]
        H = 1 << (w - 1)
        cq = a.cq if ah - al < (1 << w) - 1 and (-H <= al and ah < 2 * H) else None
        r = self.mk(w, al, ah, l, lm, bits, cq, a.lab)
        if w == 1 and a.cond is not None: r.cond = a.cond
        return r
    def zext(self, a, w, st):
        if a.lo == a.hi: return self.labc(C(w, a.cval()), a.lab) if a.lab else C(w, a.cval())
        lo, hi = st.ur(a)
        self.lin(a)
        l = st.ulin(a); lm = w
        if l is None:
            al, ah = st.rng(a)
            if not (al < 0 <= ah):      # single representative window: name it
                l = None
            if a.lm == a.w and a.lin is not None:
                l = a.lin; lm = a.w      # only known modulo 2^(old width)
        bits = None
        if self.track_bits:
            x = self.bits(a, st)
            if x is not None: bits = x + (0,) * (w - a.w)
        cq = None
        if a.cq is not None and a.lo >= 0: cq = a.cq
        elif a.cq is not None and a.hi < 0: cq = ((a.cq[0] + (1 << a.w)) % Q, a.cq[1])
        r = self.mk(w, lo, hi, l, lm, bits, cq, a.lab)
        if a.w == 1: r.cond = a.cond
        return r
    def sext(self, a, w, st):
        if a.lo == a.hi:
            c = a.cval()
            if c >> (a.w - 1): c -= 1 << a.w
            return self.labc(C(w, c), a.lab) if a.lab else C(w, c)
        lo, hi = st.sr(a)
        self.lin(a)
        l = st.slin(a); lm = w
        if l is None and a.lm == a.w: l = a.lin; lm = a.w
        bits = None
        if self.track_bits:
            x = self.bits(a, st)
            if x is not None: bits = x + (x[-1],) * (w - a.w)
        cq = None
        H = 1 << (a.w - 1)
        if a.cq is not None:
            if a.hi < H and a.lo >= -H: cq = a.cq
            elif a.lo >= H: cq = ((a.cq[0] - 2 * H) % Q, a.cq[1])
        return self.mk(w, lo, hi, l, lm, bits, cq, a.lab)
    def bits(self, v, st):
        b = v.bits
        if b is None:
            if v.lo == v.hi: return const_bits(v.w, v.lo)
            if not self.name_words or v.w > 32: return None
            b = self.word_bits(v, st)
            if b is None: return None
        elif self.name_words:
            hi = st.ur(v)[1]
            if not hi >> (v.w - 1) and any(b[hi.bit_length():]): b = b[:hi.bit_length()] + (0,) * (v.w - hi.bit_length())
        bf = st.bf
        if bf:
            for x in b:
                if x in bf:
                    return tuple(bf.get(x, x) if x.__class__ is tuple else x for x in b)
        return b
    def word_bits(self, v, st):
        """bits of a word known only as a linear form: the bits of a symbol that names the form"""
        self.lin(v)
        u = st.ulin(v)
        if u is None: return None
        n = st.ur(v)[1].bit_length()
        k = lkey(u)
        s = self.names.get(k)
        if s is None: s = self.names[k] = Sym("word", 0, (1 << 32) - 1, v.lab, ("lin", u))
        return tuple((s, i) for i in range(n)) + (0,) * (v.w - n)
    def bits_val(self, w, bits, lab, st):
        lo = hi = 0
        for i, x in enumerate(bits):
            if x == 1: lo |= 1 << i; hi |= 1 << i
            elif x != 0: hi |= 1 << i
        if lo == hi: return C(w, lo)
        # sign-extension pattern
        if bits[-1].__class__ is tuple:
            n = w - 1
            while n > 0 and bits[n - 1] == bits[-1]: n -= 1
            if n < w - 1:
                m = (1 << n) - 1
                return V(w, (lo & m) - (1 << n), hi & m, None, None, bits, None, lab)
        return V(w, lo, hi, None, None, bits, None, lab)

    def top_straddle(self, v, st):
        """representative interval crosses the sign boundary (unsigned order is not an interval)"""
        lo, hi = st.rng(v)
        if hi - lo >= (1 << v.w) - 1: return False      # nothing known: splitting would not help
        H = 1 << (v.w - 1)
        return (lo < 0 <= hi) or (lo < H <= hi)
    def split_top(self, v, st):
        lo, hi = st.rng(v)
        H = 1 << (v.w - 1)
        if lo < 0 <= hi: return Split(v, [(lo, -1), (0, hi)])
        return Split(v, [(lo, H - 1), (H, hi)])

    def lshr(self, a, n, st):
        w = a.w
        if n == 0: return a
        if a.lo == a.hi: return self.labc(C(w, a.cval() >> n), a.lab) if a.lab else C(w, a.cval() >> n)
        bits = None
        if self.track_bits:
            x = self.bits(a, st)
            if x is not None:
                bits = x[n:] + (0,) * n
                if all(q is not None for q in bits):
                    r = self.bits_val(w, bits, a.lab, st)
                    if r.lo == r.hi: return r
                    l0, h0 = st.ur(a)
                    return V(w, max(r.lo, l0 >> n), min(r.hi, h0 >> n), None, None, bits, None, a.lab)
        if n == w - 1 and self.top_straddle(a, st): raise self.split_top(a, st)
        lo, hi = st.ur(a)
        al, ah = st.rng(a)
        if self.sign_split and n == w - 1 and al == 0 and ah == (1 << w) - 1:
            raise Split(a, [(0, (1 << (w - 1)) - 1), (1 << (w - 1), ah)])
        l = None; cq = None
        self.lin(a)
        exact = a.lin is not None and lin_tz(a.lin, a.lm) >= n
        if exact and a.lm == w:
            u = st.ulin(a)
            if u is not None:
                l = (u[0] >> n, {s: c >> n for s, c in u[1].items()})
        if exact:
            c = None
            if al >= 0: c = st.getcq(a)
            elif ah < 0:
                c = st.getcq(a)
                if c is not None: c = ((c[0] + (1 << w)) % Q, c[1])
            if c is not None: cq = cq_scale(c, pow(1 << n, -1, Q))
        if l is None and self.terms: l = self.high(a, n, st)
        if l is None and w == 64:
            lo, hi = st.tight(a)
            u = st.ulin(a)
            if u is not None and 4096 <= hi < (1 << 62):
                s = Sym("shr", lo >> n, hi >> n, a.lab)
                l = (0, {s: 1})
                st.add_fact(ladd(u, l, -(1 << n)))
                st.add_fact(ladd(lscale(l, 1 << n), ladd(lconst((1 << n) - 1), u, -1)))
        if l is None: l = self.shr_sym(a, n, lo, hi, st)
        return self.mk(w, lo >> n, hi >> n, l, w, bits, cq, a.lab)
    def high(self, a, n, st):
        """name for the high part a >> n of a known linear form"""
        u = st.ulin(a)
        if u is None or not u[1]: return None
        if len(u[1]) == 1 and u[0] == 0:
            (s, c), = u[1].items(); h = self.hiof.get(s)
            if c == 1 and h is not None: u = h[0]; n += h[1]
        k = (lkey(u), n); s = self.hisyms.get(k); lo, hi = st.leval(u)
        if s is None:
            s = self.hisyms[k] = Sym("hi", 0, (1 << 64 - n) - 1, a.lab); self.hiof[s] = (u, n)
        l = (0, {s: 1}); b = st.sbounds(s)
        st.sb[s] = (max(b[0], lo >> n), min(b[1], hi >> n))
        st.add_fact(ladd(u, l, -(1 << n)))
        st.add_fact(ladd(lscale(l, 1 << n), ladd(lconst((1 << n) - 1), u, -1)))
        return l
    # terms: (valid bits, ((kind, object, offset, size, version, left shift), ...)), the xor of shifted memory words
    def tmof(self, v):
        if not isinstance(v, V): return None
        if v.tm is not None: return v.tm
        if v.lo == v.hi: return (v.w, (("c", None, None, None, v.cval(), lconst(0)),) if v.cval() else ())
        return None
    def term_of(self, op, a, b, st, w):
        if op in ("xor", "shl", "lshr", "and", "or"):
            x = self.tmof(a); y = self.tmof(b)
            if op == "xor":
                if x is None or y is None: return None
                return (min(x[0], y[0]), x[1] + y[1])
            if op == "and":
                if x is None or b.lo != b.hi: a, b, x, y = b, a, y, x
                if x is None or b.lo != b.hi: return None
                m = b.cval()
                return (min(x[0], m.bit_length()), x[1]) if m & (m + 1) == 0 else None
            if op == "or":
                if y == (w, ()): return x
                return y if x == (w, ()) else None
            if x is None: return None
            n = st.ulin(b)
            if n is None: return None
            if op == "shl":
                if not all(t[5] == (0, {}) and (t[0] == "c" or 8 * t[3] <= x[0]) for t in x[1]): return None
                return (w, tuple(t[:5] + (n,) for t in x[1]))
            if len(x[1]) != 1 or x[1][0][5] != (0, {}) or x[1][0][0] != "m" or 8 * x[1][0][3] > x[0]: return None
            return (x[0], (x[1][0][:5] + (lscale(n, -1),),))
        x = self.tmof(a)
        if x is None: return None
        if op == "trunc": return (min(x[0], w), x[1])
        return x if op == "zext" else None
    def set_term(self, v, t):
        if t is None and v.tm is None or v.lo == v.hi and v.tm is None: return v
        v = with_range(v, v.lo, v.hi); v.tm = t
        return v
    def version(self, st, o, bump=False):
        k = ("ver", o)
        if bump or k not in st.mon:
            self.vers += 1; st.mon[k] = self.vers
        return st.mon[k]
    def shr_sym(self, a, n, lo, hi, st):
        """name the high part of a length or of a contract result, so that its bytes can be recognised"""
        if n != 8 or lo < 0 or hi >> n > 255 or not (a.w == 64 or self.elem is not None and self.elem(a) is not None): return None
        u = st.ulin(a)
        if u is None or not u[1]: return None
        k = ("shr", lkey(u), n)
        s = self.shr.get(k)
        if s is None or (s.lo, s.hi) != (lo >> n, hi >> n):
            s = self.shr[k] = Sym("hi8", lo >> n, hi >> n, a.lab, ("shr", u, n))
        return (0, {s: 1})
    def ashr(self, a, n, st):
        w = a.w
        if n == 0: return a
        bits = None
        if self.sign_split and n == w - 1:
            l0, h0 = st.sr(a)
            if l0 < 0 <= h0 and h0 - l0 < (1 << w) - 1: raise Split(a, [(l0, -1), (0, h0)])
            if l0 >= 0 or h0 < 0: return C(w, -1 if h0 < 0 else 0)
        if self.track_bits:
            x = self.bits(a, st)
            if x is not None:
                bits = x[n:] + (x[-1],) * n
                if all(q is not None for q in bits):
                    return self.bits_val(w, bits, a.lab, st)
        lo, hi = st.sr(a)
        if n == w - 1 and lo < 0 <= hi:
            if self.top_straddle(a, st): raise self.split_top(a, st)
        if lo >> n == hi >> n: return self.labc(C(w, lo >> n), a.lab) if a.lab else C(w, lo >> n)
        self.lin(a)
        l = self.shr_sym(a, n, lo, hi, st)
        return self.mk(w, lo >> n, hi >> n, l, w if l else None, bits, None, a.lab)
    def and_(self, a, b, st):
        w = a.w
        if a.lo == a.hi: a, b = b, a
        lab = a.lab | b.lab
        if a is b: return a
        if b.lo == b.hi:
            m = b.cval()
            if a.lo == a.hi: return self.labc(C(w, a.cval() & m), lab) if lab else C(w, a.cval() & m)
            if m == 0: return C(w, 0)
            if m == (1 << w) - 1: return a
            bits = None
            if self.track_bits:
                x = self.bits(a, st)
                if x is not None:
                    bits = tuple(x[i] if (m >> i) & 1 else 0 for i in range(w))
                    if all(q is not None for q in bits):
                        r = self.bits_val(w, bits, lab, st)
                        if m & (m + 1) == 0 and r.lo != r.hi:
                            lo, hi = st.ur(a)
                            if hi <= m: return a
                        return r
            lo, hi = st.ur(a)
            if m & (m + 1) == 0:
                if hi <= m:
                    return a
                k = m.bit_length()
                self.lin(a)
                if a.lin is not None and a.lm >= k and a.lin[1] and all(c & m == 0 for c in a.lin[1].values()):
                    return self.labc(C(w, a.lin[0] & m), lab) if lab else C(w, a.lin[0] & m)
                if self.terms:
                    l = self.high(a, k, st)
                    if l is not None: return V(w, 0, m, ladd(st.ulin(a), l, -(1 << k)), w, bits, None, lab)
                r = V(w, 0, m, a.lin, min(k, a.lm), bits, None, lab)
                return r
            al, ah = st.rng(a)
            if al >= -1 and ah <= 0: raise Split(a, [(-1, -1), (0, 0)])
            if m >> (w - 1) and ((~m + 1) & ((1 << w) - 1)) & ~m == ((~m) & ((1 << w) - 1)) + 1 - 1 and False:
                pass
            # clear low bits: m = -2^k
            inv = (~m) & ((1 << w) - 1)
            if inv & (inv + 1) == 0:
                return self.mk(w, lo & m, hi & m, None, None, bits, None, lab)
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                if k == w - 1:
                    if self.top_straddle(a, st): raise self.split_top(a, st)
                    lo, hi = st.ur(a)
                    if lo >> k == hi >> k: return C(w, m if lo >> (w - 1) else 0)
                if lo >> k == hi >> k: return C(w, m if (lo >> k) & 1 else 0)
                s = Sym("bit", 0, 1, lab)
                return self.mk(w, 0, m, (0, {s: m}), w, bits, None, lab)
            return self.mk(w, 0, min(hi, m), None, None, bits, None, lab)
        for x, y in ((a, b), (b, a)):
            l, h = st.rng(x)
            if l == -1 and h == 0: raise Split(x, [(-1, -1), (0, 0)])
            if l == h: return self.and_(y, C(w, l), st)
        al, ah = st.ur(a); bl, bh = st.ur(b)
        bits = None
        if self.track_bits:
            x, y = self.bits(a, st), self.bits(b, st)
            if x is not None and y is not None:
                bits = tuple(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None for p, q in zip(x, y))
                if all(q is not None for q in bits): return self.bits_val(w, bits, lab, st)
        lo = 0
        T = 1 << (w - 1)
        if al >= T and bl >= T: lo = T
        return self.mk(w, lo, min(ah, bh), None, None, bits, None, lab)
    def or_(self, a, b, st, accum=False):
        w = a.w
        if a is b: return a
        if a.lo == a.hi: a, b = b, a
        lab = a.lab | b.lab
        if b.lo == b.hi:
            if a.lo == a.hi: return self.labc(C(w, a.cval() | b.cval()), lab) if lab else C(w, a.cval() | b.cval())
            m = b.cval()
            if accum and self.top_straddle(a, st): raise self.split_top(a, st)
            if m == 0: return a
            if m == (1 << w) - 1: return b
        bits = None
        if self.track_bits:
            x, y = self.bits(a, st), self.bits(b, st)
            if x is not None and y is not None:
                bits = tuple(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None for p, q in zip(x, y))
                if bits == x: return a
                if bits == y: return b
                if all(q is not None for q in bits): return self.bits_val(w, bits, lab, st)
        al, ah = st.rng(a); bl, bh = st.rng(b)
        for x, l, h in ((a, al, ah), (b, bl, bh)):
            if l == -1 and h == 0: raise Split(x, [(-1, -1), (0, 0)])
            if l == h == -1: return C(w, -1)
            if l == h == 0: return b if x is a else a
        if accum:
            for x in (a, b):
                if self.top_straddle(x, st): raise self.split_top(x, st)
        al, ah = st.ur(a); bl, bh = st.ur(b)
        # disjoint: one is a multiple of 2^k, the other below 2^k
        for x, y, xh, yh in ((a, b, ah, bh), (b, a, bh, ah)):
            if x.lin is not None or x.lo == x.hi:
                lx = self.lin(x)
                tz = lin_tz(lx, x.lm)
                if tz and yh < (1 << tz):
                    r = self.add(x, y, st)
                    if bits is not None and r.lo != r.hi and r.bits is None: r = V(w, r.lo, r.hi, r.lin, r.lm, bits, r.cq, r.lab)
                    return r
        n = max(ah, bh).bit_length()
        return self.mk(w, max(al, bl), (1 << n) - 1, None, None, bits, None, lab)
    def xor(self, a, b, st):
        w = a.w
        lab = a.lab | b.lab
        if a is b: return C(w, 0)
        if a.lo == a.hi: a, b = b, a
        if b.lo == b.hi:
            m = b.cval()
            if a.lo == a.hi: return self.labc(C(w, a.cval() ^ m), lab) if lab else C(w, a.cval() ^ m)
            if m == 0: return a
            if m == (1 << w) - 1:
                if w == 1:
                    r = V(1, 0, 1, lab=lab)
                    if a.cond is not None: r.cond = ("not", a.cond)
                    return r
                r = self.add(C(w, -1), a, st, -1)
                if self.track_bits and r.bits is None:
                    x = self.bits(a, st)
                    if x is not None and all(q in (0, 1) for q in x): pass
                return r
        for x, y in ((a, b), (b, a)):
            l, h = st.rng(x)
            if l == -1 and h == 0 and w > 1: raise Split(x, [(-1, -1), (0, 0)])
            if l == h and not x.lo == x.hi: return self.xor(y, C(w, l), st)
        bits = None
        if self.track_bits:
            x, y = self.bits(a, st), self.bits(b, st)
            if x is not None and y is not None:
                bits = tuple(q if p == 0 else p if q == 0 else 0 if p == q and p is not None else None for p, q in zip(x, y))
                if all(q is not None for q in bits): return self.bits_val(w, bits, lab, st)
        al, ah = st.ur(a); bl, bh = st.ur(b)
        n = max(ah, bh).bit_length()
        r = V(w, 0, (1 << n) - 1, None, None, bits, None, lab)
        return r
    def udiv(self, a, b, st, ctx):
        w = a.w
        al, ah = st.ur(a); bl, bh = st.ur(b)
        lab = a.lab | b.lab
        self.oblige("div-by-zero", bl > 0, ctx, "divisor may be zero")
        if bl == 0: bl = 1
        if bl == bh and bl & (bl - 1) == 0: return self.lshr(a, bl.bit_length() - 1, st)
        if bl == bh and w == 64:
            u = st.ulin(a) if self.lin(a) is not None else None
            if u is not None and ah < (1 << 62):
                s = Sym("div", al // bl, ah // bl, lab); l = (0, {s: 1})
                st.add_fact(ladd(u, l, -bl)); st.add_fact(ladd(lscale(l, bl), ladd(lconst(bl - 1), u, -1)))
                return self.mk(w, al // bl, ah // bl, l, w, None, None, lab)
        return self.mk(w, al // bh, ah // bl, None, None, None, None, lab)
    def urem(self, a, b, st, ctx):
        w = a.w
        al, ah = st.ur(a); bl, bh = st.ur(b)
        lab = a.lab | b.lab
        self.oblige("div-by-zero", bl > 0, ctx, "divisor may be zero")
        if bl == 0: bl = 1
        if bl == bh:
            c = bl
            if c & (c - 1) == 0: return self.and_(a, C(w, c - 1), st)
            k = al // c
            if k == ah // c:
                al0, ah0 = st.rng(a)
                if al0 >= 0: return self.add(a, C(w, -k * c), st)
            cq = None
            if c == Q:
                x = st.getcq(a) if self.lin(a) is not None or a.cq is not None else None
                l0, h0 = st.rng(a)
                if x is not None:
                    if l0 >= 0: cq = x
                    elif h0 < 0: cq = ((x[0] + (1 << w)) % Q, x[1])
            if self.terms:
                u = st.ulin(a) if self.lin(a) is not None else None
                if u is not None and ah < (1 << 62):
                    s = self.quot.get((lkey(u), c))
                    if s is None: s = self.quot[(lkey(u), c)] = Sym("div", al // c, ah // c, lab, ("quot", u, c))
                    l = (0, {s: 1})
                    st.add_fact(ladd(u, l, -c)); st.add_fact(ladd(lscale(l, c), ladd(lconst(c - 1), u, -1)))
                    return self.mk(w, 0, min(ah, c - 1), ladd(u, l, -c), w, None, cq, lab)
            return self.mk(w, 0, min(ah, c - 1), None, None, None, cq, lab)
        return self.mk(w, 0, min(ah, bh - 1), None, None, None, None, lab)
    def sdivrem(self, op, a, b, st, ctx):
        w = a.w
        al, ah = st.sr(a); bl, bh = st.sr(b)
        if al >= 0 and bl >= 0:
            return self.udiv(a, b, st, ctx) if op == "sdiv" else self.urem(a, b, st, ctx)
        lab = a.lab | b.lab
        self.oblige("div-by-zero", bl > 0 or bh < 0, ctx, "divisor may be zero")
        m = max(abs(al), abs(ah))
        if op == "sdiv":
            if bl > 0:
                q = [int(x / y) if abs(x) < (1 << 50) else (abs(x) // y) * (1 if x >= 0 else -1) for x in (al, ah) for y in (bl, bh)]
                return self.mk(w, min(q), max(q), None, None, None, None, lab)
            return self.mk(w, -m, m, None, None, None, None, lab)
        n = max(abs(bl), abs(bh)) - 1
        n = min(n, m)
        lo, hi = (-n if al < 0 else 0), (n if ah > 0 else 0)
        cq = None
        if bl == bh == Q:
            self.lin(a)
            c = st.getcq(a); r0, r1 = st.rng(a)
            if c is not None and (r0, r1) == (al, ah): cq = c
        return self.mk(w, lo, hi, None, None, None, cq, lab)

    def shift_amount(self, I, a, b, st, ctx):
        lo, hi = st.ur(b)
        if not self.oblige("shift", hi < a.w, ctx, lambda: "shift amount may reach %d on a %d-bit value" % (hi, a.w)):
            hi = min(hi, a.w - 1)
            if lo > hi: raise Dead()
        return lo, hi

    def binop(self, I, a, b, st, ctx):
        op = I.op
        if isinstance(a, (P, FP_)) or isinstance(b, (P, FP_)):
            return self.ptrop(op, a, b, st)
        if op == "add": return self.add(a, b, st)
        if op == "sub": return self.sub(a, b, st)
        if op == "mul": return self.mul(a, b, st)
        if op == "and": return self.boolop(op, a, b) if a.w == 1 else self.and_(a, b, st)
        if op == "or": return self.boolop(op, a, b) if a.w == 1 else self.or_(a, b, st, ctx[0].info.extra_or.get(I.uid, False))
        if op == "xor": return self.xor(a, b, st)
        if op in ("shl", "lshr", "ashr"):
            lo, hi = self.shift_amount(I, a, b, st, ctx)
            if lo != hi:
                if (self.track_bits or hi - lo < 4) and hi - lo < 40:
                    if not (self.track_bits is False and hi - lo >= 4):
                        bl, bh = st.rng(b)
                        if bl != bh and self.track_bits:
                            raise Split(b, [(x, x) for x in range(bl, bh + 1)])
                al, ah = st.ur(a)
                lab = a.lab | b.lab
                if op == "shl":
                    if ah << hi < (1 << a.w):
                        return self.mk(a.w, al << lo, ah << hi, None, None, None, None, lab)
                    return top(a.w, lab)
                if op == "lshr": return self.mk(a.w, al >> hi, ah >> lo, None, None, None, None, lab)
                sl, sh = st.sr(a)
                return self.mk(a.w, min(sl >> lo, sl >> hi), max(sh >> lo, sh >> hi), None, None, None, None, lab)
            r = getattr(self, op)(a, lo, st)
            return r
        if op == "udiv": return self.udiv(a, b, st, ctx)
        if op == "urem": return self.urem(a, b, st, ctx)
        if op in ("sdiv", "srem"): return self.sdivrem(op, a, b, st, ctx)
        raise GiveUp("operation " + op)
    def boolop(self, op, a, b):
        if a.lo == a.hi: a, b = b, a
        if b.lo == b.hi:
            t = b.cval()
            if op == "and": return a if t else b
            return b if t else a
        r = V(1, 0, 1, lab=a.lab | b.lab)
        if a.cond is not None and b.cond is not None: r.cond = (op, a.cond, b.cond)
        elif op == "and" and (a.cond or b.cond): r.cond = ("and", a.cond or b.cond, ("any",))
        elif a.cond or b.cond: r.cond = ("or", a.cond or ("any",), b.cond or ("any",))
        return r
    def ptrop(self, op, a, b, st):
        if isinstance(a, P) and isinstance(b, P):
            if op == "sub" and a.obj == b.obj: return self.sub(a.off, b.off, st)
            return top(64)
        p, v = (a, b) if isinstance(a, P) else (b, a)
        if not isinstance(p, P): return top(64)
        if op == "add": return P(p.obj, self.add(p.off, v, st), p.lab)
        if op == "sub" and p is a: return P(p.obj, self.sub(p.off, v, st), p.lab)
        if op == "and" and p.off.lo == p.off.hi and v.lo == v.hi:
            # alignment test of an address whose object is suitably aligned is only decided for our own objects
            return top(64) if p.obj is None else self.mk(64, 0, v.cval() if v.lo >= 0 else (1 << 64) - 1)
        if op == "and" and v.lo == v.hi and v.lo >= 0: return self.mk(64, 0, v.lo)
        return top(64)

    # -------------------------------------------------------------- comparisons
    # what a word being zero / non-zero implies about compared arrays: named = (if zero, if not zero)
    def zinfo(self, v, st):
        if v.named is not None: return v.named
        c = v.cond
        neg = False
        while c is not None and c[0] == "not": c = c[1]; neg = not neg
        if c is not None and c[0] in ("eq", "ne"):
            if c[0] == "ne": neg = not neg
            a, b = c[1], c[2]
            if a.lo == a.hi: a, b = b, a
            if b.lo == b.hi:
                if b.lo == 0 and a.named is not None:
                    z, nz = a.named
                else: return None
            else:
                z, nz = self.pair(a, b, st), None
            if z is None and nz is None: return None
            return (z, nz) if neg else (nz, z)
        return None
    def track_zero(self, op, a, b, r, st):
        if not isinstance(a, V) or not isinstance(b, V): return r
        x, y = self.zinfo(a, st), self.zinfo(b, st)
        n = None
        if op in ("xor", "sub") and a.w > 1:
            p = self.pair(a, b, st) if a.lo != a.hi and b.lo != b.hi else None
            if p is not None: n = (p, None)
            elif op == "sub" and a.lo == a.hi == 0: n = y
        if op == "xor" and a.w == 1 and n is None:
            if b.lo == b.hi and b.cval() == 1 and x: n = (x[1], x[0])
        if op in ("or", "and", "mul"):
            z, nz = [], []
            for u, i in ((a, x), (b, y)):
                if u.lo == u.hi: z.append({} if u.lo == 0 else None); nz.append(None if u.lo == 0 else {})
                else: z.append(i[0] if i else None); nz.append(i[1] if i else None)
            if op == "or":
                d = self.zunion(z[0] or {}, z[1] or {})
                e = nz[0] if b.lo == b.hi == 0 else nz[1] if a.lo == a.hi == 0 else None
                n = (d or None, e)
            else:
                n = (None, self.zunion(nz[0] or {}, nz[1] or {}) or None)
        if n is None or n == (None, None): return r
        if r is a or r is b: r = with_range(r, r.lo, r.hi)
        r.named = n
        return r
    def zunion(self, a, b):
        d = dict(a)
        for k, m in b.items(): d[k] = d.get(k, 0) | m
        return d
    def keep_zero(self, v, r):
        n = self.zinfo(v, None) if v.named is None and v.cond is not None else v.named
        if n is None: return r
        if r is v: return r
        r.named = n
        return r
    def apply_zero(self, st, d):
        for k, m in d.items():
            kk = ("eq",) + k
            o = st.mon.get(kk, 0) | m
            st.mon[kk] = o
            if o == (1 << k[2]) - 1 and ("alleq",) + k not in st.ev: st.ev = tuple(sorted(st.ev + (("alleq",) + k,), key=repr))

    def icmp(self, pred, a, b, st):
        if isinstance(a, P) or isinstance(b, P) or isinstance(a, FP_) or isinstance(b, FP_):
            return self.pcmp(pred, a, b, st)
        lab = a.lab | b.lab
        # truth values compared with a constant
        if b.lo == b.hi and a.cond is not None and pred in ("eq", "ne") and a.lo != a.hi and b.cval() in (0, 1):
            t = (b.cval() == 1) == (pred == "eq")
            r = V(1, 0, 1, lab=lab); r.cond = a.cond if t else ("not", a.cond)
            return r
        d = self.decide(pred, a, b, st)
        if d is not None:
            return self.labc(C(1, d), lab) if lab else C(1, d)
        r = V(1, 0, 1, lab=lab)
        r.cond = (pred, a, b)
        return r
    def decide(self, pred, a, b, st):
        w = a.w
        if pred in ("eq", "ne"):
            if a is b: return 1 if pred == "eq" else 0
            al, ah = st.rng(a); bl, bh = st.rng(b)
            if al > ah or bl > bh: raise Dead()
            if al == ah and bl == bh:
                e = (al - bl) % (1 << w) == 0
                return int(e == (pred == "eq"))
            x = V(w, al, ah) if (al, ah) != (a.lo, a.hi) else a
            if clip(x, w, bl, bh) is None: return int(pred == "ne")
            if self.track_bits:
                p, q = self.bits(a, st), self.bits(b, st)
                if p is not None and q is not None:
                    if any((u, v) in ((0, 1), (1, 0)) for u, v in zip(p, q)): return int(pred == "ne")
                    if p == q and None not in p: return int(pred == "eq")
            if a.lin is not None and b.lin is not None:
                if a.lm == w and b.lm == w and lsub_eq(a.lin, b.lin, w): return int(pred == "eq")
                m = min(a.lm, b.lm)
                dlt = ladd(a.lin, b.lin, -1)
                t = dlt[0] % (1 << m)
                if t and min([m] + [ctz(c, m) for c in dlt[1].values()]) > ctz(t, m): return int(pred == "ne")
                if st.facts and a.lm == w and b.lm == w:
                    for la, lb in ((st.ulin(a), st.ulin(b)), (st.slin(a), st.slin(b))):
                        if la is not None and lb is not None:
                            d = ladd(la, lb, -1)
                            if st.prove(ladd(d, lconst(-1))) or st.prove(ladd(lscale(d, -1), lconst(-1))): return int(pred == "ne")
                            if st.prove(d) and st.prove(lscale(d, -1)): return int(pred == "eq")
                            break
            return None
        if pred[0] == "u": al, ah = st.ur(a); bl, bh = st.ur(b)
        else: al, ah = st.sr(a); bl, bh = st.sr(b)
        if al > ah or bl > bh: raise Dead()
        k = pred[1:]
        if k in ("gt", "ge"):
            al, ah, bl, bh = bl, bh, al, ah
            a, b = b, a
            k = "lt" if k == "gt" else "le"
        if k == "lt":
            if ah < bl: return 1
            if al >= bh: return 0
        else:
            if ah <= bl: return 1
            if al > bh: return 0
        if a is b: return int(k == "le")
        if (a.lin is not None or a.lo == a.hi) and (b.lin is not None or b.lo == b.hi):
            f = st.ulin if pred[0] == "u" else st.slin
            la, lb = f(a), f(b)
            if la is not None and lb is not None:
                d = ladd(lb, la, -1)       # b-a
                if k == "lt":
                    if st.prove(ladd(d, lconst(-1))): return 1
                    if st.prove(lscale(d, -1)): return 0
                else:
                    if st.prove(d): return 1
                    if st.prove(ladd(lscale(d, -1), lconst(-1))): return 0
        return None
    def pcmp(self, pred, a, b, st):
        if isinstance(a, FP_) or isinstance(b, FP_):
            if isinstance(a, FP_) and isinstance(b, FP_): e = a.name == b.name
            else: e = False
            return C(1, int(e == (pred == "eq")))
        if not isinstance(a, P) or not isinstance(b, P): return top(1)
        if a.obj == b.obj:
            return self.icmp(pred, a.off, b.off, st)
        if pred in ("eq", "ne"):
            return C(1, int(pred == "ne"))
        return top(1)

    # -------------------------------------------------------------- refinement
    def narrow(self, st, env, v, lo, hi):
        """restrict v to words in integer range [lo,hi]; False if empty"""
        l0, h0 = st.rng(v)
        if l0 > h0: return None
        x = clip(v, v.w, lo, hi)
        if x is None: return None
        x = (max(x[0], l0), min(x[1], h0))
        if x[0] > x[1]: return None
        if x == (v.lo, v.hi): return v
        if not self.lin_bound(st, v, x): return None
        n = with_range(v, x[0], x[1])
        self.replace(env, v, n)
        return n
    def lin_bound(self, st, v, x):
        self.lin(v)
        L = st.rep_lin(v)
        if L is not None and L[1]:
            if not st.add_fact((L[0] - x[0], L[1])): return False
            if not st.add_fact(ladd(lconst(x[1]), L, -1)): return False
        return True
    def replace(self, env, old, new):
        for k, x in env.items():
            if x is old: env[k] = new
            elif x.__class__ is P and x.off is old: env[k] = P(x.obj, new, x.lab)
            elif x.__class__ is V and x.cond is not None and x.cond[0] in NEG and x is not old:
                c = x.cond
                if c[1] is old or c[2] is old:
                    y = V(x.w, x.lo, x.hi, x.lin, x.lm, x.bits, x.cq, x.lab)
                    y.cond = (c[0], new if c[1] is old else c[1], new if c[2] is old else c[2])
                    env[k] = y

    def assume(self, st, env, cond, truth):
        """list of (st, env) in which cond has the given truth value (consumes st/env)"""
        k = cond[0]
        if k == "any": return [(st, env)]
        if k == "not": return self.assume(st, env, cond[1], not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                out = []
                for s, e in self.assume(st, env, cond[1], truth):
                    out += self.assume(s, e, cond[2], truth)
                return out
            s2, e2 = st.fork(), dict(env)
            out = self.assume(st, env, cond[1], truth)
            for s, e in self.assume(s2, e2, cond[1], not truth):
                out += self.assume(s, e, cond[2], truth)
            return out
        pred, a, b = cond
        if not truth: pred = NEG[pred]
        if len(self.limits) < 400:
            if a.__class__ is V and b.__class__ is V:
                if b.lo == b.hi and a.lo != a.hi: self.limits.add(b.lo)
                elif a.lo == a.hi and b.lo != b.hi: self.limits.add(a.lo)
        # current versions of a and b may have been narrowed; the facts are on linear forms anyway
        try:
            d = self.decide(pred, a, b, st)
        except Dead:
            return []
        if d == 0: return []
        if d == 1: return [(st, env)]
        return [(st, env)] if self.refine(st, env, pred, a, b) else []
    def refine(self, st, env, pred, a, b):
        w = a.w
        if self.pair is not None and pred in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y.lo == y.hi == 0 and x.lo != x.hi:
                    z = self.zinfo(x, st)
                    if z is not None:
                        z = z[0] if pred == "eq" else z[1]
                        if z: self.apply_zero(st, z)
            if a.lo != a.hi and b.lo != b.hi:
                p = self.pair(a, b, st)
                if p is not None:
                    if pred == "eq": self.apply_zero(st, p)
                    return True
        if pred == "eq":
            al, ah = st.rng(a); bl, bh = st.rng(b)
            self.bit_eq(st, a, b)
            x = self.narrow(st, env, a, bl, bh)
            if x is None: return False
            l0, h0 = st.rng(x)
            y = self.narrow(st, env, b, l0, h0)
            if y is None: return False
            if a.lo != a.hi and b.lo != b.hi:
                for f in (st.ulin, st.slin):
                    la, lb = f(a), f(b)
                    if la is not None and lb is not None:
                        d = ladd(la, lb, -1)
                        return st.add_fact(d) and st.add_fact(lscale(d, -1))
            return True
        if pred == "ne":
            for x, y in ((a, b), (b, a)):
                yl, yh = st.rng(y)
                if yl != yh: continue
                if yl == 0 and x.lin is not None and len(x.lin[1]) > 1:
                    lx = st.ulin(x)
                    if lx is not None and not st.add_fact(ladd(lx, lconst(-1))): return False
                for _ in range(2):
                    lo, hi = st.rng(x)
                    M = 1 << w
                    if (lo - yl) % M and (hi - yl) % M: lo, hi = st.trng(x)
                    if (lo - yl) % M == 0: lo += 1
                    elif (hi - yl) % M == 0: hi -= 1
                    elif lo == 0 and hi == M - 1 and False: pass
                    else: break
                    if lo > hi: return False
                    n = self.narrow(st, env, x, lo, hi)
                    if n is None: return False
                    x = n
                if self.track_bits: self.bit_ne(st, x, yl)
                return True
            return True
        if pred[0] == "u": f = st.ulin; al, ah = st.ur(a); bl, bh = st.ur(b)
        else: f = st.slin; al, ah = st.sr(a); bl, bh = st.sr(b)
        k = pred[1:]
        if k in ("gt", "ge"):
            a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
            k = "lt" if k == "gt" else "le"
        s = 1 if k == "lt" else 0
        la = lb = None
        if (a.lo != a.hi) and (b.lo != b.hi) or len((a.lin or (0, ()))[1]) + len((b.lin or (0, ()))[1]) > 1:
            self.lin(a); self.lin(b)
            la, lb = f(a), f(b)
        x = self.narrow(st, env, a, al, min(ah, bh - s))
        if x is None or al > bh - s: return False
        y = self.narrow(st, env, b, max(bl, al + s), bh)
        if y is None: return False
        if la is not None and lb is not None:
            if not st.add_fact(ladd(ladd(lb, la, -1), lconst(-s))): return False
        return True
    def bit_eq(self, st, a, b):
        if not self.track_bits: return
        p, q = self.bits(a, st), self.bits(b, st)
        if p is None or q is None: return
        for x, y in zip(p, q):
            if x.__class__ is tuple and y in (0, 1): st.bf[x] = y
            elif y.__class__ is tuple and x in (0, 1): st.bf[y] = x
    def bit_ne(self, st, a, c):
        p = self.bits(a, st)
        if p is None: return
        un = [i for i, x in enumerate(p) if x not in (0, 1)]
        if len({p[i] for i in un}) == 1 and p[un[0]] is not None:
            i = un[0]
            rest_ok = all(p[j] == (c >> j) & 1 for j in range(a.w) if j not in un)
            if rest_ok:
                vals = {(c >> j) & 1 for j in un}
                if len(vals) == 1: st.bf[p[i]] = 1 - vals.pop()

    # -------------------------------------------------------------- memory
    def access(self, st, p, size, ctx, write):
        """bounds obligation; returns (obj, const offset or None, linear offset or None)"""
        what = "write" if write else "read"
        if p.obj is None:
            self.oblige("null", False, ctx, "%s through a null or undefined pointer" % what)
            raise Dead()
        o = st.mem.get(p.obj)
        if o is None:
            self.oblige("lifetime", False, ctx, "%s of %s outside its lifetime" % (what, p.obj))
            raise Dead()
        off = p.off
        if write and o.ro:
            self.oblige("const-write", False, ctx, "write to constant object %s" % o.desc)
        sz = lconst(size) if isinstance(size, int) else size
        if off.lo == off.hi and not sz[1] and not o.size[1]:
            c = off.lo
            ok = c >= 0 and c + sz[0] <= o.size[0]
            self.oblige("bounds", ok, ctx, lambda: "%s of %d byte(s) at offset %d of %s (size %s)" % (what, sz[0], c, o.desc, lstr(o.size)))
            if not ok: raise Dead()
            return o, c, (c, {})
        self.lin(off)
        L = st.slin(off)
        lo, hi = st.sr(off)
        ok = lo >= 0 and st.prove(ladd(ladd(o.size, lconst(-hi)), sz, -1))
        if not ok and L is not None:
            ok = (lo >= 0 or st.prove(L)) and st.prove(ladd(ladd(o.size, L, -1), sz, -1))
        def msg():
            lo, hi = st.sr(off)
            return "%s of %s byte(s) at offset %s in [%d,%d] of %s (size %s) not provably inside" % (
                what, lstr(sz), lstr(L), lo, hi, o.desc, lstr(o.size))
        self.oblige("bounds", ok, ctx, msg)
        if not ok and L is not None:
            if not st.add_fact(L) or not st.add_fact(ladd(ladd(o.size, L, -1), sz, -1)): raise Dead()
        c = off.lo if off.lo == off.hi else None
        if c is None and L is not None:
            lo, hi = st.leval(L)
            if lo == hi: c = lo
        return o, c, L

    def load(self, st, p, ty, ctx):
        size = ir.size_align(ty)[0]
        isptr = ty.k == "ptr"
        w = ty.w if ty.k == "int" else 64
        if not isinstance(p, P):
            raise GiveUp("load through %r" % (p,))
        o, c, L = self.access(st, p, size, ctx, False)
        if self.on_load: self.on_load(self, st, o, c, L, size, ctx)
        if c is not None:
            r = self.load_const(st, o, c, size, w, isptr, ctx)
        else:
            r = self.load_sym(st, o, p, L, size, w, isptr, ctx)
        if self.terms and r.__class__ is V and (L is not None or c is not None) and r.w == 8 * size:
            r = with_range(r, r.lo, r.hi)
            r.tm = (8 * size, (("m", o.name, L if L is not None else lconst(c), size, self.version(st, o.name), lconst(0)),))
        if isinstance(r, tuple) and r[0] == "global":
            on = self.global_obj(r[1], r[2], st)
            r = P(on, C(64, 0))
        if isinstance(r, V) and r.w != w:
            r = self.trunc(r, w, st) if r.w > w else self.zext(r, w, st)
        if isinstance(r, V) and p.off.lab and not (r.lab & p.off.lab) == p.off.lab:
            r = V(r.w, r.lo, r.hi, r.lin, r.lm, r.bits, r.cq, r.lab | p.off.lab)
        return r
    def load_const(self, st, o, c, size, w, isptr, ctx):
        x = o.cells.get(c)
        if x is not None and x[0] == size:
            return x[1]
        # composition / extraction from overlapping cells
        hits = self.overlaps(o, c, size)
        if hits:
            # inside one larger cell
            if len(hits) == 1:
                k, (sz, v) = hits[0]
                if k <= c and c + size <= k + sz and isinstance(v, V):
                    r = self.lshr_safe(v, (c - k) * 8, st)
                    return self.trunc(r, size * 8, st) if r.w > size * 8 else r
            # concatenation of smaller cells
            out = None; pos = c; ok = True
            for k, (sz, v) in hits:
                if k != pos or not isinstance(v, V) or k + sz > c + size: ok = False; break
                if v.w != sz * 8: v = self.zext(v, sz * 8, st)
                e = self.zext(v, size * 8, st)
                e = self.shl(e, (k - c) * 8, st) if k > c else e
                out = e if out is None else self.add(out, e, st)
                pos = k + sz
            if ok and pos == c + size: return out
            lab = 0
            for k, (sz, v) in hits: lab |= v.lab if isinstance(v, V) else 0
            covered = sum(min(k + sz, c + size) - max(k, c) for k, (sz, v) in hits)
            if covered < size and o.default == "uninit" and o.smear is None and not self.in_seg(st, o, (c, {}), size):
                self.oblige("uninit", False, ctx, "read of %d byte(s) at offset %d of %s, not fully initialised" % (size, c, o.desc))
            return top(w, lab)
        s = self.in_seg(st, o, (c, {}), size)
        if s is not None:
            return self.seg_value(st, s, (c, {}), size, w)
        return self.load_default(st, o, c, (c, {}), size, w, isptr, ctx)
    def lshr_safe(self, v, n, st):
        try: return self.lshr(v, n, st)
        except Split:
            lo, hi = 0, ((1 << v.w) - 1) >> n
            return V(v.w, lo, hi, lab=v.lab)
    def overlaps(self, o, c, size):
        out = []
        cells = o.cells
        for k in range(c - 15, c + size):
            x = cells.get(k)
            if x is not None and k + x[0] > c: out.append((k, x))
        return out
    def in_seg(self, st, o, L, size):
        for s in reversed(o.segs):
            if st.prove(ladd(L, s.start, -1)) and st.prove(ladd(ladd(s.end, L, -1), lconst(-size))):
                return s
        return None
    def seg_value(self, st, s, L, size, w):
        if s.prov is not None and s.prov[0] in st.mem:
            src = st.mem[s.prov[0]]
            if src.default == "input" and not src.written:
                return self.load_default(st, src, None, ladd(L, s.prov[1]), size, w, False, None)
        v = s.v
        if v is not None and isinstance(v, V) and s.sz == size:
            return V(v.w, v.lo, v.hi, None, None, None, None, v.lab)
        if v is not None and not isinstance(v, V): return v
        return top(w, v.lab if v is not None else 0)
    def load_default(self, st, o, c, L, size, w, isptr, ctx):
        if o.smear is not None: return top(w, o.smear | o.lab)
        d = o.default
        if d == "zero": return NULL if isptr else C(w, 0)
        if d == "input" or d == "top":
            if isptr: raise GiveUp("pointer read from unknown memory %s" % o.desc)
            if L is None: return top(w, o.lab)
            key = (lkey(L), size)
            r = o.sym.get(key)
            if r is None:
                if self.fresh_input is not None:
                    r = self.fresh_input(self, st, o, L, size)
                if r is None:
                    s = Sym("%s[%s]" % (o.desc, lstr(L)), 0, (1 << (8 * size)) - 1, o.lab, (o.name, L))
                    bits = tuple((s, i) for i in range(8 * size)) if self.track_bits else None
                    r = V(8 * size, 0, (1 << (8 * size)) - 1, (0, {s: 1}), 8 * size, bits, None, o.lab)
                o = st.w(o.name)
                o.sym[key] = r
            return r
        self.oblige("uninit", False, ctx, "read of %d byte(s) at offset %s of %s before initialisation" % (size, lstr(L), o.desc))
        return NULL if isptr else top(w)
    def load_sym(self, st, o, p, L, size, w, isptr, ctx):
        lo, hi = st.sr(p.off)
        if L is not None:
            s = self.in_seg(st, o, L, size)
            if s is not None and not any(lo - 15 <= k <= hi + size and k + x[0] > lo for k, x in o.cells.items()):
                return self.seg_value(st, s, L, size, w)
        if o.default == "input" and not o.written:
            return self.load_default(st, o, None, L, size, w, isptr, ctx)
        # hull over all cells in range
        vals = []; lab = 0; exact = True; cover = 0
        step = 1
        for k, (sz, v) in o.cells.items():
            if k + sz <= lo or k >= hi + size: continue
            vals.append(v); cover += sz
            if sz != size: exact = False
            if isinstance(v, V): lab |= v.lab
            else: exact = False
        ptrs = [v for v in vals if isinstance(v, (P, FP_))]
        if isptr:
            if len(ptrs) == len(vals) and vals: raise GiveUp("pointer table with symbolic index")
            raise GiveUp("pointer read from unknown memory %s" % o.desc)
        total = None if o.size[1] else o.size[0]
        full = cover >= min(hi + size, total if total is not None else 1 << 62) - max(lo, 0)
        segs = [s for s in o.segs]
        if o.smear is not None or o.default in ("top", "input", "zero"):
            if o.default == "zero" and exact and o.smear is None and not segs:
                vals.append(C(w, 0))
                return self.hull(w, vals, lab)
            if full and exact and o.smear is None: return self.hull(w, vals, lab)
            return top(w, lab | (o.smear or 0) | o.lab)
        if not full:
            cov = False
            if L is not None and segs:
                # split obligation: [cells][seg] contiguous
                cov = self.covered(st, o, L, size)
            if not cov:
                self.oblige("uninit", False, ctx, "read at offset %s in [%d,%d] of %s, not provably initialised" % (lstr(L), lo, hi, o.desc))
        for s in segs:
            if s.sz != size or not isinstance(s.v, V): exact = False
            if isinstance(s.v, V): lab |= s.v.lab; vals.append(s.v)
        return self.hull(w, vals, lab) if exact and vals else top(w, lab)
    def covered(self, st, o, L, size):
        """L..L+size lies in the union of a run of cells from the lowest offset and segments adjacent to it"""
        if not o.cells: pts = None
        else:
            k = min(o.cells); e = k
            while e in o.cells: e += o.cells[e][0]
            pts = ((k, {}), (e, {}))
        for s in o.segs:
            if pts is not None and st.prove_eq(s.start, pts[1]):
                pts = (pts[0], s.end)
            elif pts is None: pts = (s.start, s.end)
        return pts is not None and st.prove(ladd(L, pts[0], -1)) and st.prove(ladd(ladd(pts[1], L, -1), lconst(-size)))
    def hull(self, w, vals, lab):
        lo = hi = None
        H = 1 << (w - 1)
        for v in vals:
            if v.w != w: return top(w, lab)
            lo = v.lo if lo is None else min(lo, v.lo)
            hi = v.hi if hi is None else max(hi, v.hi)
        if lo is None: return top(w, lab)
        return V(w, lo, hi, lab=lab)

    def store(self, st, p, v, size, ctx):
        if not isinstance(p, P): raise GiveUp("store through %r" % (p,))
        o, c, L = self.access(st, p, size, ctx, True)
        if self.on_store: self.on_store(self, st, o, c, L, size, v, ctx)
        o = st.w(o.name)
        o.written = True
        if c is not None:
            self.put(st, o, c, size, v)
            return
        lo, hi = st.sr(p.off)
        lab = p.off.lab
        # sequential write directly after a segment
        if L is not None:
            for i, s in enumerate(o.segs):
                if s.sz == size and (self.insym or s.prov is None and not (isinstance(v, V) and isinstance(s.v, V) and (v.lin is not None or s.v.lin is not None))) and st.prove_eq(L, s.end):
                    nv = self.joiner.vjoin_plain(s.v, v)
                    o.segs = o.segs[:i] + [Seg(s.start, ladd(s.end, lconst(size)), size, nv)] + o.segs[i + 1:]
                    return
            if o.default == "uninit" and not any(k + x[0] > lo and k < hi + size for k, x in o.cells.items()):
                clash = [s for s in o.segs if not (st.prove(ladd(L, s.end, -1)) or st.prove(ladd(ladd(s.start, L, -1), lconst(-size))))]
                if not clash:
                    o.segs = o.segs + [Seg(L, ladd(L, lconst(size)), size, v)]
                    return
        # weak update
        for k, (sz, x) in list(o.cells.items()):
            if k + sz <= lo or k >= hi + size: continue
            if L is not None and len(o.cells) < 128 and (st.prove(ladd(L, lconst(-k - sz))) or st.prove(ladd(lconst(k - size), L, -1))): continue
            if sz == size and isinstance(x, V) and isinstance(v, V):
                o.cells[k] = (sz, self.joiner.vjoin_plain(x, v))
            else:
                o.cells[k] = (sz, top(sz * 8, (v.lab if isinstance(v, V) else 0) | (x.lab if isinstance(x, V) else 0)))
        ns = []
        for s in o.segs:
            if L is not None and (st.prove(ladd(L, s.end, -1)) or st.prove(ladd(ladd(s.start, L, -1), lconst(-size)))):
                ns.append(s)
            else:
                ns.append(Seg(s.start, s.end, s.sz, self.joiner.vjoin_plain(s.v, v) if s.sz == size and isinstance(s.v, V) and isinstance(v, V) else top(8 * s.sz, self.lab_of(s.v) | self.lab_of(v))))
        o.segs = ns
        if o.default in ("zero", "input", "top"):
            # untouched places keep their content, touched ones change: forget the default content
            if o.default == "zero" and not o.size[1]:
                n = o.size[0]
                if n <= 8192 and n % size == 0 and all(x[0] == size and k % size == 0 for k, x in o.cells.items()):
                    z = self.joiner.vjoin_plain(C(8 * size, 0), v) if isinstance(v, V) else None
                    if z is not None:
                        a = max(lo, 0) // size * size
                        b = min(hi + size, n)
                        for k in range(a, b, size):
                            if k not in o.cells: o.cells[k] = (size, z)
                        return
            o.smear = (o.smear or 0) | self.lab_of(v) | o.lab | lab
            o.sym = {}
    def lab_of(self, v):
        return v.lab if isinstance(v, (V, P)) and v is not None else 0
    def put(self, st, o, c, size, v):
        x = o.cells.get(c)
        if x is not None and x[0] == size:
            o.cells[c] = (size, v)
        else:
            for k, (sz, y) in self.overlaps(o, c, size):
                del o.cells[k]
                # keep the remains of a partly overwritten cell byte-wise (unknown content, same labels)
                for b in range(k, k + sz):
                    if not (c <= b < c + size):
                        if isinstance(y, V):
                            r = self.trunc(self.lshr_safe(y, (b - k) * 8, st), 8, st)
                        else: r = top(8)
                        o.cells[b] = (1, r)
            o.cells[c] = (size, v)
        if o.segs:
            ns = []
            for s in o.segs:
                if st.prove(ladd(lconst(c), s.end, -1)) or st.prove(ladd(s.start, lconst(-c - size))): ns.append(s)
                elif st.prove_eq(s.end, lconst(c)) and s.sz == size and isinstance(v, V) and isinstance(s.v, V):
                    ns.append(s)
                elif isinstance(v, V) and isinstance(s.v, V):
                    nv = self.joiner.vjoin_plain(s.v, v) if s.sz == size else top(8 * s.sz, s.v.lab | v.lab)
                    ns.append(Seg(s.start, s.end, s.sz, nv))
                else: ns.append(Seg(s.start, s.end, s.sz, top(8 * s.sz)))
            o.segs = ns
        if o.sym:
            o.sym = {k: y for k, y in o.sym.items() if not k[0][1] and (k[0][0] + k[1] <= c or k[0][0] >= c + size)}

    # bulk operations
    def memcpy(self, st, d, s, n, ctx, move=False):
        """n: V(64)"""
        lo, hi = st.ur(n)
        if hi == 0: return
        self.lin(n)
        nl = st.ulin(n) or (hi, {})
        # zero-length copies access nothing: assume n>=1 only for the bounds check when that is undecided
        if lo == 0:
            if st.prove(ladd(nl, lconst(-1))): pass
        if isinstance(s, P) and s.obj is None or isinstance(d, P) and d.obj is None:
            if lo == 0 and hi == 0: return
        so, sc, sL = self.access(st, s, nl, ctx, False)
        do, dc, dL = self.access(st, d, nl, ctx, True)
        if self.on_load: self.on_load(self, st, so, sc, sL, nl, ctx)
        if self.on_store: self.on_store(self, st, do, dc, dL, nl, ("copy", s, so.name, sL), ctx)
        do = st.w(d.obj); so = st.mem[s.obj]
        do.written = True
        if not nl[1] and sc is not None and dc is not None:
            k = nl[0]
            new = {}
            pos = 0
            cells = so.cells
            runs = []
            while pos < k:
                x = cells.get(sc + pos)
                if x is not None and pos + x[0] <= k:
                    new[pos] = x; pos += x[0]; continue
                sub = self.overlaps(so, sc + pos, 1)
                if sub or so.default != "uninit" or so.smear is not None or so.segs:
                    v = self.load_const(st, so, sc + pos, 1, 8, False, ctx); so = st.mem[s.obj]; do = st.w(d.obj)
                    cells = so.cells
                    new[pos] = (1, v)
                pos += 1      # uninitialised bytes stay uninitialised
            if k >= 64 and so.default == "input" and not so.written and not cells and False:
                pass
            self.clear(st, do, dc, k)
            for q, x in new.items(): do.cells[dc + q] = x
            return
        # symbolic range
        self.check_init_range(st, so, sL, nl, ctx)
        if sL is not None and dL is not None and (so.written or so.default == "uninit"):
            ps = self.pieces(st, so, sL, nl)
            if ps is not None:
                for x, k, v, pr in ps:
                    to = ladd(dL, ladd(x, sL, -1))
                    if not k[1] and not to[1]:
                        do.sym = {}
                        for i in range(k[0]):
                            y = so.cells.get(x[0] + i) if not x[1] else None
                            self.put(st, do, to[0] + i, 1, y[1] if y is not None and y[0] == 1 else v)
                    else:
                        self.write_range(st, do, to, k, 1, v, (pr[0], ladd(ladd(pr[1], x), to, -1)) if pr is not None else None)
                return
        prov = (s.obj, ladd(sL, dL, -1)) if sL is not None and dL is not None and not so.written else None
        if prov is None and sL is not None and dL is not None:
            for g in so.segs:
                if g.prov is not None and st.prove(ladd(sL, g.start, -1)) and st.prove(ladd(g.end, ladd(sL, nl), -1)):
                    prov = (g.prov[0], ladd(ladd(g.prov[1], sL), dL, -1)); break
        lab = self.range_lab(so)
        self.write_range(st, do, dL, nl, 1, top(8, lab), prov)
    def pieces(self, st, o, L, nl):
        """decompose o[L..L+nl) into runs (start, length, byte value, provenance); None if not possible"""
        if L[1] or o.smear is not None: 
            for s in o.segs:
                if s.prov is not None and s.sz == 1 and st.prove(ladd(L, s.start, -1)) and st.prove(ladd(s.end, ladd(L, nl), -1)):
                    return [(L, nl, s.v, s.prov)]
            return None
        e = ladd(L, nl)
        pos = L; out = []
        for _ in range(4200):
            left = ladd(e, pos, -1)
            if st.prove(lscale(left, -1)): return out
            if not pos[1]:
                x = o.cells.get(pos[0])
                if x is not None:
                    if x[0] != 1 or not isinstance(x[1], V) or not st.prove(ladd(left, lconst(-1))): return None
                    g = self.elem(x[1]) if self.elem is not None else None
                    if g is not None:
                        pr = (("grp", g[0].id), (g[1] - pos[0], {}))
                        p = out[-1] if out else None
                        if p is not None and p[3] is not None and p[3][0] == pr[0] and leq(p[3][1], pr[1]):
                            out[-1] = (p[0], (p[1][0] + 1, {}), p[2], pr)
                        else: out.append((pos, (1, {}), top(8, x[1].lab), pr))
                    else: out.append((pos, (1, {}), x[1], None))
                    pos = (pos[0] + 1, {}); continue
            for s in o.segs:
                if s.sz == 1 and isinstance(s.v, V) and (
                        st.prove(ladd(pos, s.start, -1)) and st.prove(ladd(ladd(s.end, pos, -1), lconst(-1))) or
                        st.prove_eq(pos, s.start) and not leq(s.start, s.end)):
                    k = ladd(s.end, pos, -1)
                    if st.prove(ladd(k, left, -1)): k = left
                    elif not st.prove(ladd(left, k, -1)): return None
                    out.append((pos, k, s.v, s.prov)); pos = ladd(pos, k); break
            else: return None
        return None
    def range_lab(self, o):
        lab = o.lab | (o.smear or 0)
        for sz, v in o.cells.values(): lab |= self.lab_of(v)
        for s in o.segs: lab |= self.lab_of(s.v)
        return lab
    def check_init_range(self, st, o, L, nl, ctx):
        if o.default != "uninit" or o.smear is not None or L is None: return
        e = ladd(L, nl)
        for s in o.segs:
            if st.prove(ladd(L, s.start, -1)) and st.prove(ladd(s.end, e, -1)):
                self.ob["init"] += 1; return
        if o.cells:
            k = min(o.cells)
            ok = False
            for k in ([L[0]] if not L[1] and L[0] in o.cells else [min(o.cells)]):
                en = k
                while en in o.cells: en += o.cells[en][0]
                end = (en, {})
                for s in o.segs:
                    if st.prove_eq(s.start, end): end = s.end
                if st.prove(ladd(L, lconst(-k))) and st.prove(ladd(end, e, -1)): ok = True
            if ok:
                self.ob["init"] += 1; return
        self.oblige("uninit", False, ctx, "copy of %s byte(s) at offset %s of %s, not provably initialised" % (lstr(nl), lstr(L), o.desc))
    def clear(self, st, o, c, k):
        if len(o.cells) > 4 * k:
            for q in range(c - 15, c + k):
                x = o.cells.get(q)
                if x is not None and q + x[0] > c: self.cut(st, o, q, x, c, c + k)
        else:
            for q, x in list(o.cells.items()):
                if q + x[0] > c and q < c + k: self.cut(st, o, q, x, c, c + k)
        if o.sym: o.sym = {}
        if o.segs:
            o.segs = [s for s in o.segs if not (st.prove(ladd(s.start, lconst(-c))) and st.prove(ladd(lconst(c + k), s.end, -1)))]
    def cut(self, st, o, q, x, a, b):
        del o.cells[q]
        for y in range(q, q + x[0]):
            if y < a or y >= b:
                o.cells[y] = (1, self.trunc(self.lshr_safe(x[1], (y - q) * 8, st), 8, st) if isinstance(x[1], V) else top(8))
    def write_range(self, st, o, L, nl, sz, v, prov):
        """o[L .. L+nl) := elements v"""
        if L is None:
            o.smear = (o.smear or 0) | self.lab_of(v); o.sym = {}
            return
        lo = st.leval(L)[0]; hi = st.leval(ladd(L, nl))[1]
        e = ladd(L, nl)
        # cells possibly hit
        for k, (s, x) in list(o.cells.items()):
            if k + s <= lo or k >= hi: continue
            if st.prove(ladd(L, lconst(-k - s))) or st.prove(ladd(lconst(k), e, -1)): continue
            if st.prove(ladd(lconst(k), L, -1)) and st.prove(ladd(e, lconst(-k - s))):
                del o.cells[k]
            else:
                o.cells[k] = (s, top(8 * s, self.lab_of(x) | self.lab_of(v)))
        ns = []; done = False
        for s in o.segs:
            if st.prove(ladd(L, s.end, -1)) and not st.prove_eq(L, s.end) or st.prove(ladd(s.start, e, -1)):
                ns.append(s); continue
            if st.prove_eq(L, s.end):
                if s.sz == sz and s.prov is not None and prov is not None and s.prov[0] == prov[0] and leq(s.prov[1], prov[1]):
                    ns.append(Seg(s.start, e, sz, self.joiner.vjoin_plain(s.v, v), prov)); done = True
                elif s.sz == sz and s.prov is None and prov is None:
                    ns.append(Seg(s.start, e, sz, self.joiner.vjoin_plain(s.v, v))); done = True
                else: ns.append(s)
                continue
            if st.prove(ladd(s.start, L, -1)) and st.prove(ladd(e, s.end, -1)): continue   # fully overwritten
            ns.append(Seg(s.start, s.end, s.sz, top(8 * s.sz, self.lab_of(s.v) | self.lab_of(v))))
        if not done: ns.append(Seg(L, e, sz, v, prov))
        o.segs = ns
        o.sym = {}
        if o.default in ("input", "top"): pass
    def memset(self, st, d, v, n, ctx):
        lo, hi = st.ur(n)
        if hi == 0: return
        self.lin(n)
        nl = st.ulin(n) or (hi, {})
        o, c, L = self.access(st, d, nl, ctx, True)
        if self.on_store: self.on_store(self, st, o, c, L, nl, ("set", v), ctx)
        o = st.w(d.obj); o.written = True
        if not nl[1] and c is not None:
            k = nl[0]
            if c == 0 and not o.size[1] and k == o.size[0] and v.lo == v.hi == 0:
                o.cells = {}; o.segs = []; o.sym = {}; o.default = "zero"; o.smear = None
                return
            self.clear(st, o, c, k)
            if v.lo == v.hi and k > 512 or (v.lo == v.hi == 0 and k % 8 == 0 and c % 8 == 0):
                q = 0
                while q < k:
                    s = 8 if k - q >= 8 else 1
                    o.cells[c + q] = (s, C(8 * s, int.from_bytes(bytes([v.cval()]) * s, "little")))
                    q += s
            else:
                for q in range(k): o.cells[c + q] = (1, v)
            return
        self.write_range(st, o, L, nl, 1, v, None)

    # -------------------------------------------------------------- functions
    def lookup(self, name, mod):
        f = mod.funcs.get(name)
        return f if f is not None else self.funcs.get(name)

    def prep(self, f):
        fi = ir.analyse(f)
        if not hasattr(f, "x"):
            pass
        if getattr(fi, "extra_or", None) is None:
            prepare(f, fi)
        return fi

    def call(self, st, name, args, ctx, mod):
        """returns list of (state, value or None)"""
        ob = self.observe_call.get(name)
        if ob is not None: ob(self, st, args, ctx)
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, ctx)
            if r is not None: return r
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.memcpy(st, args[0], args[1], args[2], ctx); return [(st, None)]
            if name.startswith("llvm.memset"):
                self.memset(st, args[0], args[1], args[2], ctx); return [(st, None)]
            if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or name.startswith("llvm.experimental.noalias"):
                return [(st, None)]
            m = name.split(".")
            if m[1] in ("umin", "umax", "smin", "smax", "abs"):
                a = args[0]
                return [(st, top(a.w, a.lab))]
            raise GiveUp("intrinsic " + name)
        if name in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2], ctx); return [(st, args[0])]
        if name == "memset":
            self.memset(st, args[0], self.trunc(args[1], 8, st), args[2], ctx); return [(st, args[0])]
        if name in ("memcmp", "bcmp"):
            self.lin(args[2]); nl = st.ulin(args[2]) or (st.ur(args[2])[1], {})
            if st.leval(nl)[1] > 0:
                for q in args[:2]: self.access(st, q, nl, ctx, False)
            return [(st, top(32))]
        if name in ("printf", "puts", "fprintf", "putchar", "fflush"):
            return [(st, top(32))]
        f = self.lookup(name, mod)
        if f is None:
            raise GiveUp("call of unknown function %s at %s" % (name, self.where(ctx)))
        if any(x is f for x, _ in self.stack): raise GiveUp("recursion in " + name)
        fi = self.prep(f)
        if self.memo and fi.pure and f.ret.k == "int" and all(isinstance(a, V) for a in args) and not any(a.lab or a.bits for a in args):
            key = (f.module.name, name) + tuple(st.rng(a) for a in args)
            hit = self.memo_tab.get(key)
            if hit is None:
                s2 = State()
                rs = self.run(f, [V(a.w, *st.rng(a)) if st.rng(a)[0] != st.rng(a)[1] else C(a.w, st.rng(a)[0]) for a in args], s2)
                out = []
                for s, r in rs:
                    lo, hi = s.rng(r)
                    out.append(V(r.w, lo, hi) if lo != hi else C(r.w, lo))
                v = out[0]
                for y in out[1:]: v = self.joiner.vjoin_plain(v, y)
                hit = self.memo_tab[key] = (v.w, v.lo, v.hi)
            self.ob["memo"] += 1
            if hit[1] == hit[2]: return [(st, C(hit[0], hit[1]))]
            return [(st, V(*hit))]
        return self.run(f, args, st)

    def run(self, f, args, st):
        fi = self.prep(f)
        self.act += 1
        act = self.act
        self.stack.append((f, act)); self.sym_marks.append(Sym.n + 1)
        try:
            return Activation(self, f, fi, act).go(args, st)
        finally:
            self.stack.pop(); self.sym_marks.pop()
    def sym0(self):
        """symbols below this number belong to callers"""
        return self.sym_marks[-1] if self.sym_marks else 0


def prepare(f, fi):
    """static facts used to choose partitions: accumulating 'or's, constant phis, purity"""
    fi.extra_or = {}
    for b in f.blocks.values():
        T = b.ins[-1]
        if T.op == "ret" and T.a and T.a[0][0] == "v":
            for I in b.phis:
                if I.res == T.a[0][1]: fi.retphis = {b.name: [I.res]}
    fi.orphis = set(); fi.constphis = dict(getattr(fi, 'retphis', {}))
    fi.pure = True
    defs = {}
    for b in f.blocks.values():
        for I in b.phis: defs[I.res] = I
        for I in b.ins:
            if I.res: defs[I.res] = I
            if I.op in ("load", "store", "call", "alloca"): fi.pure = False
    # an 'or' whose result feeds a phi that (transitively) feeds the 'or'
    def feeds(name, target, seen):
        if name == target: return True
        if name in seen: return False
        seen.add(name)
        I = defs.get(name)
        if I is None: return False
        if I.op == "phi": return any(v[0] == "v" and feeds(v[1], target, seen) for v, _ in I.a)
        if I.op == "or": return any(v[0] == "v" and feeds(v[1], target, seen) for v in I.a)
        return False
    for b in f.blocks.values():
        if b.name not in fi.loop_of: continue
        for I in b.ins:
            if I.op == "or" and I.ty.k == "int" and I.ty.w >= 32 and I.uid is not None:
                for v in I.a:
                    if v[0] == "v" and v[1] in defs and defs[v[1]].op in ("phi", "or") and feeds(v[1], I.res, set()):
                        fi.extra_or[I.uid] = True
                        fi.orphis.add(I.res)
    for b in f.blocks.values():
        for I in b.phis:
            if I.ty.k != "int": continue
            if all(v[0] in ("c", "undef") for v, _ in I.a) or I.ty.w == 1: fi.constphis.setdefault(b.name, []).append(I.res)
            for v, _ in I.a:
                if v[0] == "v" and v[1] in defs and defs[v[1]].op == "or" and fi.extra_or.get(defs[v[1]].uid):
                    fi.orphis.add(I.res)
    # phis of phis of accumulators
    ch = True
    while ch:
        ch = False
        for b in f.blocks.values():
            for I in b.phis:
                if I.res not in fi.orphis and any(v[0] == "v" and v[1] in fi.orphis for v, _ in I.a) and I.ty.k == "int" and I.ty.w >= 32:
                    fi.orphis.add(I.res); ch = True
    # constants usable as widening thresholds
    ths = set()
    for b in f.blocks.values():
        for I in list(b.ins) + b.phis:
            for o in (I.a if I.op not in ("call", "getelementptr") else [x[1] for x in I.a]):
                o = o[0] if I.op == "phi" else o
                if isinstance(o, tuple) and o and o[0] == "c":
                    c = o[1]
                    if c >> (o[2] - 1) and o[2] > 1: c -= 1 << o[2]
                    ths.update((c - 1, c, c + 1))
    ths.update((0, 1, -1))
    fi.thresholds = sorted(ths)
    # loops: exit edges
    fi.exits = {}
    for h, body in fi.loopblocks.items():
        for bn in body:
            for s in f.blocks[bn].succs:
                if s not in body: fi.exits.setdefault(bn, []).append(h)
    fi.chain = {}
    for bn in f.blocks:
        fi.chain[bn] = [h for h, body in fi.loopblocks.items() if bn in body]


class Item:
    __slots__ = ("st", "env", "it", "subs")
    def __init__(self, st, env, it): self.st = st; self.env = env; self.it = it; self.subs = None

class Restart(Exception):
    """a loop turned out to need an invariant: analyse the function again with that loop symbolic from its entry"""
    pass


class Activation:
    def __init__(self, ip, f, fi, act):
        self.ip = ip; self.f = f; self.fi = fi; self.act = act
        self.pending = {}      # block -> {key: Item}
        self.heap = []
        self.rets = {}
        self.inv = {}          # (header, key) -> widening record
        self.locals = []
        self.symh = set()

    def go(self, args, st):
        ip = self.ip
        while True:
            al = dict(ip.alarms); st0 = st.fork()
            stack = list(ip.stack)
            try:
                return self.go1(args, st)
            except Restart:
                ip.alarms.clear(); ip.alarms.update(al)
                st = st0
                self.pending = {}; self.heap = []; self.rets = {}; self.inv = {}; self.locals = []

    def go1(self, args, st):
        f, fi, ip = self.f, self.fi, self.ip
        outer = ip.insym
        env = {n: a for (t, n), a in zip(f.params, args)}
        env = {k: v for k, v in env.items() if k in fi.livein[f.entry]}
        self.enqueue(f.entry, st, env, {}, None)
        while self.heap:
            _, b = heapq.heappop(self.heap)
            items = self.pending.pop(b, None)
            if not items: continue
            for key, item in items.items():
                ip.insym = outer or any(h in self.symh for h in fi.chain[b])
                if item.subs: item = self.merge_subs(item)
                if b in self.symh:
                    h = dict(item.it); t = h[b]; h[b] = (t[0], t[1], t[2], key); item.it = h
                    rk = self.rk(b, key, h)
                    if rk not in self.inv: self.inv[rk] = [item.st.fork(), dict(item.env), set(), 0]
                self.exec_block(b, item)
        ip.insym = outer
        out = []
        for key, (s, r) in self.rets.items():
            if any(l in s.mem for l in self.locals):
                s = s.fork()
                for l in self.locals: s.mem.pop(l, None)
            out.append((s, r))
        return out

    def key(self, b, st, env):
        fi = self.fi
        k = [st.ev]
        for n in fi.constphis.get(b, ()):
            v = env.get(n)
            if isinstance(v, V): k.append(v.cval() if v.lo == v.hi else "u")
        for n, v in env.items():
            if v.__class__ is P: k.append((n, v.obj))
            elif v.__class__ is FP_: k.append((n, v.name))
            elif n in fi.orphis and v.__class__ is V:
                H = 1 << (v.w - 1)
                lo, hi = st.ur(v)
                k.append(0 if hi < H else 1 if lo >= H else 2)
            elif self.ip.part_consts and v.__class__ is V and v.lo == v.hi and v.w in (32,) and -1 <= v.lo <= 64:
                k.append((n, v.lo))
        return tuple(k)

    def enqueue(self, b, st, env, it, frm):
        """frm: predecessor block (None at entry)"""
        ip, f, fi = self.ip, self.f, self.fi
        blk = f.blocks[b]
        if blk.phis:
            new = {}
            for I in blk.phis:
                for v, pb in I.a:
                    if pb == frm:
                        try:
                            new[I.res] = ip.val(v, env, st, f.module)
                        except GiveUp:
                            if I.res in fi.livein[b]: raise
                        break
            live = fi.livein[b]
            e2 = {k: v for k, v in env.items() if k in live}
            for k, v in new.items(): e2[k] = v
            env = e2
        else:
            live = fi.livein[b]
            env = {k: v for k, v in env.items() if k in live}
        back = False
        if b in fi.headers:
            if frm is not None and (frm, b) in fi.backedge:
                back = True
            else:
                it = dict(it); it[b] = (0, 0, 0, None)
        # leaving loops: drop their counters
        ch = fi.chain[b]
        left = None
        if any(h not in ch for h in it):
            left = [(fi.pos[h], h, c) for h, c in it.items() if h not in ch and h in self.symh]
            it = {h: c for h, c in it.items() if h in ch}
        if ip.paths:
            # every path separately (bounded functions only)
            ip.npath += 1
            if ip.npath > ip.maxpath: raise GiveUp("too many paths")
            q = self.pending.get(b)
            if q is None:
                q = self.pending[b] = {}
                heapq.heappush(self.heap, (fi.pos[b], b))
            q[ip.npath] = Item(st, env, it)
            return
        if ip.on_enter: ip.on_enter(ip, st)
        key = self.key(b, st, env)
        if ip.part_edges:
            # the edge taken into each block with phis, until the loop iteration ends
            fn = f.name
            t = tuple((g, x, y) for g, x, y in st.mon.get("edges", ()) if g != fn or x != b and all(h in ch for h in fi.chain[x]) and not (back and b in fi.chain[x]))
            if blk.phis and b not in fi.headers: t += ((fn, b, frm),)
            st.mon["edges"] = t; key += t
        if back:
            tot, und, fl, hk = it[b]
            # an exit test the analysis cannot decide costs budget unless a constant counter also bounds the loop
            # (decided from what is known about variables that are not constants: only so often)
            if not fl & 1 or fl & 4 or fl & 8 and tot > 40: und += 1
            it = dict(it); it[b] = (tot, und, fl, hk)
            if b in self.symh:
                r = self.widen(b, key, st, env, it)
                if r is None: return
                st, env, it = r
            elif und > ip.undec or (fl & 2 and tot > 3000) or tot > 200000:
                self.symh.add(b)
                raise Restart()
            if tot > 300000: raise GiveUp("loop bound in %s" % f.name)
        q = self.pending.get(b)
        if q is None:
            q = self.pending[b] = {}
            heapq.heappush(self.heap, (fi.pos[b], b))
        old = q.get(key)
        if old is None:
            if len(q) >= ip.maxkeys:
                # too many partitions: merge with the first one that agrees on the event part and pointers
                for k2, o2 in q.items():
                    if k2[0] == key[0] and self.ptrs(o2.env) == self.ptrs(env):
                        key = k2; old = o2; break
        new = Item(st, env, it)
        sk = None; n = None
        if left:
            # leaving loops whose invariant is still growing: later passes supersede earlier ones
            left.sort()
            if all(c[3] is not None for _, _, c in left):
                sk = tuple((h, c[3]) for _, h, c in left); n = tuple(c[0] for _, _, c in left)
        if old is None:
            if sk is not None: new.subs = {sk: (n, new)}
            q[key] = new
        elif sk is None and not old.subs:
            q[key] = self.merge(old, new)
        else:
            if not old.subs: old.subs = {None: (None, old)}
            o = old.subs.get(sk)
            if o is None: old.subs[sk] = (n, new)
            elif sk is not None and n > o[0]: old.subs[sk] = (n, new)
            elif sk is not None and n < o[0]: pass
            else: old.subs[sk] = (n, self.merge(o[1], new))

    def rk(self, b, key, it):
        return (b, key, tuple(sorted((h, c[0]) for h, c in it.items() if h != b)))
    def merge_subs(self, item):
        r = None
        for n, i in item.subs.values():
            r = i if r is None else self.merge(r, i)
        return r
    def merge(self, a, b):
        s, e = self.ip.joiner.join(a.st, a.env, b.st, b.env)
        m = dict(a.it)
        for h, c in b.it.items():
            o = m.get(h, (0, 0, 0, None)); m[h] = (max(o[0], c[0]), max(o[1], c[1]), o[2] | c[2], o[3] if o[3] == c[3] else None)
        return Item(s, e, m)

    def ptrs(self, env):
        return sorted((n, v.obj if v.__class__ is P else v.name) for n, v in env.items() if v.__class__ in (P, FP_))

    def widen(self, b, key, st, env, it):
        ip = self.ip
        rk = self.rk(b, key, it)
        rec = self.inv.get(rk)
        if rec is None:
            # start: remember the first state seen in widening mode
            self.inv[rk] = [st.fork(), dict(env), set(), 0]
            return st, env, it
        ist, ienv, hs, n = rec
        if ip.joiner.included(st, env, ist, ienv, hs): return None
        if n > 18: raise GiveUp("no stable loop invariant in %s (block %s)" % (self.f.name, b))
        thr = None
        if n >= 2: thr = sorted(set(self.fi.thresholds if n < 4 or not ip.limits else (-1, 0, 1)).union(*((c - 1, c, c + 1) for c in ip.limits)))
        s, e, fresh = ip.joiner.join_widen(ist, ienv, st, env, thr, n >= 10, n >= 4)
        self.inv[rk] = [s, e, hs | fresh, n + 1]
        return s.fork(), dict(e), it

    # ------------------------------------------------------------------
    def exec_block(self, b, item):
        ip, f, fi = self.ip, self.f, self.fi
        blk = f.blocks[b]
        it = item.it
        if b in fi.headers:
            it = dict(it); t, u, _, hk = it[b]; it[b] = (t + 1, u, 0, hk)
        if ip.on_phi is not None and blk.phis: ip.on_phi(ip, f, b, item.st, item.env)
        work = [(item.st, item.env, 0)]
        n = len(blk.ins)
        forks = 0
        while work:
            st, env, i = work.pop()
            # states reaching the same instruction are processed separately, joined at block ends
            try:
                while True:
                    I = blk.ins[i]
                    ip.steps += 1
                    if ip.steps > ip.maxsteps: raise GiveUp("step limit")
                    op = I.op
                    if op == "br" or op == "ret" or op == "switch" or op == "unreachable":
                        self.term(b, I, st, env, it)
                        break
                    if op == "call":
                        args = [ip.val(v, env, st, f.module) for t, v in I.a]
                        cal = ip.val(I.extra, env, st, f.module)
                        if not isinstance(cal, FP_):
                            raise GiveUp("indirect call in %s" % f.name)
                        nch = ip.choices
                        rs = ip.call(st, cal.name, args, (f, I), f.module)
                        ip.visited[f.name] += 1
                        if not rs: break
                        if len(rs) > 1 and cal.name in ip.hooks: ip.choices += 1
                        if len(rs) > 1 and ip.choices != nch:
                            # the outcome of a contract is a choice: exit tests on it decide nothing
                            hs = [h for h in fi.chain[b] if h in it]
                            if hs:
                                hs = [min(hs, key=lambda h: len(fi.loopblocks[h]))]; it = dict(it)
                                for h in hs: t_, u_, fl_, hk_ = it[h]; it[h] = (t_, u_, fl_ | 4, hk_)
                        for s2, r in rs[1:]:
                            e2 = dict(env)
                            if I.res: e2[I.res] = r if r is not None else top(64)
                            work.append((s2, e2, i + 1))
                        st, r = rs[0]
                        if I.res: env[I.res] = r if r is not None else top(64)
                        i += 1
                        continue
                    self.step(I, st, env)
                    i += 1
            except Split as sp:
                forks += 1
                if forks > 4000: raise GiveUp("too many splits in %s" % f.name)
                any_ = False
                for lo, hi in sp.parts:
                    s2, e2 = st.fork(), dict(env)
                    if lo > hi: continue
                    nv = with_range(sp.v, lo, hi)
                    if not ip.lin_bound(s2, sp.v, (lo, hi)): continue
                    ip.replace(e2, sp.v, nv)
                    work.append((s2, e2, i))
            except SelectSplit as sp:
                c = sp.c
                for tr in (1, 0):
                    s2, e2 = st.fork(), dict(env)
                    cond = c.cond
                    ip.replace(e2, c, C(1, tr))
                    if cond is None: work.append((s2, e2, i))
                    else:
                        for s3, e3 in ip.assume(s2, e2, cond, bool(tr)): work.append((s3, e3, i))
            except Dead:
                pass

    def step(self, I, st, env):
        ip, f = self.ip, self.f
        op = I.op
        mod = f.module
        val = ip.val
        if op in ir.BIN:
            a = val(I.a[0], env, st, mod); b = val(I.a[1], env, st, mod)
            r = ip.binop(I, a, b, st, (f, I))
            if ip.pair is not None and r.__class__ is V and r.lo != r.hi: r = ip.track_zero(op, a, b, r, st)
            if ip.terms and r.__class__ is V and a.__class__ is V and b.__class__ is V: r = ip.set_term(r, ip.term_of(op, a, b, st, r.w))
        elif op == "load":
            r = ip.load(st, val(I.a[0], env, st, mod), I.ty, (f, I))
        elif op == "store":
            v = val(I.a[0], env, st, mod)
            ip.store(st, val(I.a[1], env, st, mod), v, ir.size_align(I.ty)[0], (f, I))
            return
        elif op == "getelementptr":
            base = val(I.a[0][1], env, st, mod)
            r = ip.gep(I.ty, base, [(t, val(v, env, st, mod)) for t, v in I.a[1:]], st)
        elif op == "icmp":
            r = ip.icmp(I.extra, val(I.a[0], env, st, mod), val(I.a[1], env, st, mod), st)
        elif op == "zext" or op == "sext":
            v = val(I.a[0], env, st, mod)
            r = ip.zext(v, I.ty.w, st) if op == "zext" else ip.sext(v, I.ty.w, st)
            if ip.pair is not None and r.lo != r.hi: r = ip.keep_zero(v, r)
            if ip.terms: r = ip.set_term(r, ip.term_of(op, v, None, st, r.w))
        elif op == "trunc":
            v = val(I.a[0], env, st, mod)
            r = ip.trunc(v, I.ty.w, st)
            if ip.pair is not None and r.lo != r.hi and v.lo >= 0 and v.hi < (1 << r.w): r = ip.keep_zero(v, r)
            if ip.terms: r = ip.set_term(r, ip.term_of(op, v, None, st, r.w))
        elif op == "select":
            c = val(I.a[0], env, st, mod)
            if c.lo == c.hi:
                r = val(I.a[1] if c.cval() else I.a[2], env, st, mod)
            else:
                raise SelectSplit(c)
        elif op == "alloca":
            sz = ir.size_align(I.ty)[0]
            cnt = val(I.a[0], env, st, mod)
            name = "%s.%s#%d" % (f.name, I.res, self.act)
            if name not in self.locals: self.locals.append(name)
            st.mem[name] = Obj(name, sz * cnt.cval() if cnt.const() else lscale(ip.lin(cnt), sz), "uninit", desc="local %s of %s" % (I.res, f.name))
            st.own.add(name)
            r = P(name, C(64, 0))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            r = val(I.a[0], env, st, mod)
        else:
            raise GiveUp("instruction %s in %s" % (op, f.name))
        env[I.res] = r
        ip.visited[f.name] += 1

    def term(self, b, I, st, env, it):
        ip, f, fi = self.ip, self.f, self.fi
        op = I.op
        if op == "ret":
            r = ip.val(I.a[0], env, st, f.module) if I.a else None
            if ip.on_ret is not None: ip.on_ret(ip, f, st, r)
            if r is None: k = (st.ev,)
            elif isinstance(r, V):
                lo, hi = st.rng(r)
                if lo == hi and not (r.lo == r.hi):
                    r = with_range(r, lo, hi)
                k = (st.ev, r.lo % (1 << r.w) if r.lo == r.hi and len(self.rets) < 12 else "u")
            elif isinstance(r, P): k = (st.ev, r.obj)
            else: k = (st.ev, getattr(r, "name", None))
            if ip.part_edges and any(g == f.name for g, x, y in st.mon.get("edges", ())):
                st = st.fork(); st.mon["edges"] = tuple(e for e in st.mon["edges"] if e[0] != f.name)
            if self.locals and any(l in st.mem for l in self.locals):
                st = st.fork()
                for l in self.locals: st.mem.pop(l, None)
            if ip.paths: k = len(self.rets)
            old = self.rets.get(k)
            if old is None: self.rets[k] = (st, r)
            else:
                s, e = ip.joiner.join(old[0], {"r": old[1]} if r is not None else {}, st, {"r": r} if r is not None else {})
                self.rets[k] = (s, e.get("r"))
            return
        if op == "unreachable": return
        if op == "switch":
            v = ip.val(I.a[0], env, st, f.module)
            rest = True
            s0, e0 = st, env
            for c, t in I.extra[1]:
                s1, e1 = s0.fork(), dict(e0)
                cc = C(v.w, c)
                for s, e in ip.assume(s1, e1, ("eq", v, cc), True): self.enqueue(t, s, e, it, b)
                r = ip.assume(s0, e0, ("eq", v, cc), False)
                if not r: rest = False; break
                s0, e0 = r[0]
            if rest: self.enqueue(I.extra[0], s0, e0, it, b)
            return
        if not I.a:
            self.enqueue(I.extra[0], st, env, it, b)
            return
        c = ip.val(I.a[0], env, st, f.module)
        t, e = I.extra
        if c.lo == c.hi:
            tgt = t if c.cval() else e
            it = self.count(b, it, True, self.relational(b, I, env, st, it, tgt))
            self.enqueue(tgt, st, env, it, b)
            return
        it = self.count(b, it, False)
        cond = c.cond
        if cond is None:
            s2 = st.fork()
            self.enqueue(t, s2, dict(env), it, b)
            self.enqueue(e, st, env, it, b)
            return
        s2, env2 = st.fork(), dict(env)
        ip.replace(env2, c, C(1, 1)); ip.replace(env, c, C(1, 0))
        for s, n in ip.assume(s2, env2, cond, True): self.enqueue(t, s, n, it, b)
        for s, n in ip.assume(st, env, cond, False): self.enqueue(e, s, n, it, b)

    def relational(self, b, I, env, st, it, out):
        "is the test decided although its operands are not constants"
        if not fi_exits(self.fi, b): return False
        for J in self.f.blocks[b].ins:
            if ("v", J.res) == I.a[0] and J.op == "icmp":
                try: vs = [self.ip.val(o, env, st, self.f.module) for o in J.a[:2]]
                except Exception: return False
                if not any(isinstance(v, V) and v.lo != v.hi for v in vs): return False
                # some of the partitions stay and others leave after the same number of iterations
                d = self.__dict__.setdefault("decs", {}); mixed = False
                for h in fi_exits(self.fi, b):
                    if h in it and h == b:
                        k = d.setdefault((b, h), {}); x = k.setdefault(it[h][0], set()); x.add(out)
                        mixed = mixed or any(len(y) == 2 for y in k.values())
                return mixed
        return False
    def count(self, b, it, decided, rel=False):
        """note that an exit test of a loop was met in this iteration (1: decided, 2: undecided)"""
        hs = self.fi.exits.get(b)
        if not hs: return it
        it = dict(it)
        for h in hs:
            if h in it:
                t, u, fl, hk = it[h]
                it[h] = (t, u, fl | (1 if decided else 2) | (8 if rel else 0), hk)
        return it

def fi_exits(fi, b): return fi.exits.get(b)
class SelectSplit(Exception):
    def __init__(self, c): self.c = c
