"""Join, widening and inclusion of abstract states (affine joins over shared fresh symbols)."""
from .values import *
from .state import *

def with_range(v, lo, hi):
    from .interp import with_range as f
    return f(v, lo, hi)

def wthr(x, lo, thr):
    """largest threshold <= x (lo) / smallest >= x"""
    if lo:
        r = None
        for t in thr:
            if t <= x: r = t
            else: break
        return r
    for t in thr:
        if t >= x: return t
    return None

class Joiner:
    def __init__(self, ip):
        self.ip = ip
        self.mon_join = None

    def vjoin_plain(self, a, b):
        if a is b: return a
        if not isinstance(a, V) or not isinstance(b, V):
            if isinstance(a, P) and isinstance(b, P) and a.obj == b.obj: return P(a.obj, self.vjoin_plain(a.off, b.off), a.lab | b.lab)
            if isinstance(a, V): return top(a.w, a.lab)
            if isinstance(b, V): return top(b.w, b.lab)
            return top(64)
        if a.w != b.w: return top(max(a.w, b.w), a.lab | b.lab)
        M = 1 << a.w
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        best = (hi - lo, lo, hi, 0)
        for k in (-M, M):
            x, y = min(a.lo, b.lo + k), max(a.hi, b.hi + k)
            if y - x < best[0]: best = (y - x, x, y, k)
        lin = None; lm = None
        if a.lin is not None and b.lin is not None and a.lm == b.lm and lsub_eq(a.lin, b.lin, a.lm): lin = a.lin; lm = a.lm
        bits = None
        if self.ip.track_bits:
            p = a.bits if a.bits is not None else const_bits(a.w, a.lo) if a.lo == a.hi else None
            q = b.bits if b.bits is not None else const_bits(b.w, b.lo) if b.lo == b.hi else None
            if p is not None and q is not None:
                bits = tuple(x if x == y else None for x, y in zip(p, q))
                if all(x is None for x in bits): bits = None
        return V(a.w, best[1], best[2], lin, lm, bits, None, a.lab | b.lab)

    # ---------------------------------------------------------------- slots
    def slots(self, A, eA, B, eB, J, eJ):
        """differing scalars of two states: list of [VA, VB, [setters]] and structural merge of J"""
        out = {}; self.differ = set()
        def slot(a, b, setter):
            if a is b: setter(a); return
            k = (id(a), id(b))
            s = out.get(k)
            if s is None: out[k] = [a, b, [setter]]
            else: s[2].append(setter)
        for k, a in eA.items():
            b = eB.get(k)
            if b is None: continue
            if a is b: eJ[k] = a
            elif a.__class__ is V and b.__class__ is V and a.w == b.w:
                slot(a, b, lambda v, k=k: eJ.__setitem__(k, v))
            elif a.__class__ is P and b.__class__ is P and a.obj == b.obj:
                lab = a.lab | b.lab
                slot(a.off, b.off, lambda v, k=k, o=a.obj, lab=lab: eJ.__setitem__(k, P(o, v, lab)))
            elif a.__class__ is type(b) and getattr(a, "name", 0) == getattr(b, "name", 1):
                eJ[k] = a
        for name in list(A.mem):
            if name not in B.mem:
                if not name.startswith("@"): J.mem.pop(name, None)
                continue
            oa, ob = A.mem[name], B.mem[name]
            if oa is ob: continue
            self.obj_slots(A, oa, B, ob, J, name, slot)
        for name, ob in B.mem.items():
            if name.startswith("@") and name not in A.mem: J.mem[name] = ob
        return list(out.values())

    def seg_at(self, X, o, start):
        """(end, size, value, prov) of the initialised run starting at linear offset start"""
        for s in o.segs:
            if leq(s.start, start): return s.end, s.sz, s.v, s.prov
        if start[1]:
            return start, None, None, None
        k = start[0]; sz = None; v = None; prov = None; first = True
        cells = o.cells
        while k in cells:
            z, x = cells[k]
            if sz is None: sz = z
            if z != sz: break
            v = x if v is None else self.vjoin_plain(v, x)
            k += z
        return (k, {}), sz, v, None

    def obj_slots(self, A, oa, B, ob, J, name, slot):
        o = J.w(name)
        ip = self.ip
        o.written = oa.written or ob.written
        o.ro = oa.ro
        if oa.default != ob.default:
            # e.g. cleared as a whole on one side only
            o.default = "uninit" if "uninit" in (oa.default, ob.default) else "top"
            keep = {k: x for k, x in oa.cells.items() if ob.cells.get(k) is x}
            o.cells = keep; o.segs = []; o.sym = {}; o.smear = None if o.default == "uninit" else (oa.smear or 0) | (ob.smear or 0)
            for k, x in oa.cells.items():
                y = ob.cells.get(k)
                if y is not None and y[0] == x[0] and x is not y and isinstance(x[1], V) and isinstance(y[1], V):
                    slot(x[1], y[1], lambda v, k=k, s=x[0]: o.cells.__setitem__(k, (s, v)))
            return
        if oa.smear is not None or ob.smear is not None: o.smear = (oa.smear or 0) | (ob.smear or 0)
        o.sym = {k: v for k, v in oa.sym.items() if ob.sym.get(k) is v} if oa.sym is not ob.sym else dict(oa.sym)
        miss = []
        if oa.cells is not ob.cells:
            ca, cb = oa.cells, ob.cells
            o.cells = {}
            for k, x in ca.items():
                y = cb.get(k)
                if x is y: o.cells[k] = x
                elif y is None: miss.append(k)
                elif x[0] == y[0]:
                    if x[1] is y[1]: o.cells[k] = x
                    elif isinstance(x[1], V) and isinstance(y[1], V) and x[1].w == y[1].w:
                        slot(x[1], y[1], lambda v, k=k, s=x[0]: o.cells.__setitem__(k, (s, v)))
                        o.cells[k] = x; self.differ.add((name, k))
                    elif isinstance(x[1], P) and isinstance(y[1], P) and x[1].obj == y[1].obj:
                        o.cells[k] = x
                        slot(x[1].off, y[1].off, lambda v, k=k, s=x[0], ob_=x[1].obj: o.cells.__setitem__(k, (s, P(ob_, v))))
                        if x[1].off is not y[1].off: self.differ.add((name, k))
                    else: o.cells[k] = (x[0], top(8 * x[0], ip.lab_of(x[1]) | ip.lab_of(y[1])))
                else: miss.append(k)
            for k in cb:
                if k not in ca: miss.append(k)
            if miss:
                miss = sorted(set(miss))
                d = oa.default
                if d == "uninit" and o.smear is None:
                    pass
                else:
                    for k in miss:
                        x, y = ca.get(k), cb.get(k)
                        if x is not None and y is not None: 
                            o.smear = o.smear or 0; continue
                        z = x or y
                        X, oo = (B, ob) if x is not None else (A, oa)
                        if ip.overlaps(oo, k, z[0]) or ip.in_seg(X, oo, (k, {}), z[0]) is not None:
                            o.smear = (o.smear or 0) | ip.range_lab(oo) | ip.lab_of(z[1]); continue
                        if oo.smear is not None or not isinstance(z[1], V):
                            o.smear = o.smear or 0; continue
                        v = ip.load_default(X, oo, k, (k, {}), z[0], z[0] * 8, False, None)
                        a, b = (z[1], v) if x is not None else (v, z[1])
                        o.cells[k] = z
                        if a is not b: self.differ.add((name, k))
                        slot(a, b, lambda v, k=k, s=z[0]: o.cells.__setitem__(k, (s, v)))
                    miss = []
        # segments
        starts = []
        for s in oa.segs + ob.segs:
            if not any(leq(s.start, t) for t in starts): starts.append(s.start)
        covered = set()
        if miss:
            k = miss[0]
            if not any(not t[1] and t[0] <= k for t in starts): starts.append((k, {}))
        if starts:
            o.segs = []
            for t in starts:
                ea, za, va, pa = self.seg_at(A, oa, t)
                eb, zb, vb, pb = self.seg_at(B, ob, t)
                emptya, emptyb = leq(ea, t), leq(eb, t)
                if emptya and emptyb: continue
                if not emptya and not emptyb and za != zb:
                    za = zb = None
                sz = za if not emptya else zb
                if sz is None: continue
                v = va if emptyb else vb if emptya else self.vjoin_plain(va, vb)
                if v is None: continue
                prov = pa if emptyb else pb if emptya else (pa if pa is not None and pb is not None and pa[0] == pb[0] and leq(pa[1], pb[1]) else None)
                g = Seg(t, None, sz, v, prov)
                if leq(ea, eb): g.end = ea
                else:
                    VA = V(64, *self.lr(A, ea), ea, 64); VB = V(64, *self.lr(B, eb), eb, 64)
                    def setend(v, g=g):
                        g.end = v.lin if v.lin is not None else None
                    slot(VA, VB, setend)
                o.segs.append(g)
                if not t[1]:
                    # cells converted into the segment
                    hi = max(self.lr(A, ea)[1], self.lr(B, eb)[1])
                    for k in [k for k in o.cells if t[0] <= k < hi]:
                        if k in miss or not (k in oa.cells and k in ob.cells) or True:
                            o.cells.pop(k, None); covered.add(k)
    def lr(self, X, l):
        return X.leval(l)

    # ---------------------------------------------------------------- join
    def join(self, A, eA, B, eB):
        s, e, f = self._join(A, eA, B, eB, None, False, False)
        return s, e
    def join_widen(self, A, eA, B, eB, thr, hard, strict=False):
        return self._join(A, eA, B, eB, thr, hard, True, strict)

    def _join(self, A, eA, B, eB, thr, hard, loop, strict=False):
        ip = self.ip
        J = A.fork(); eJ = {}
        sl = self.slots(A, eA, B, eB, J, eJ)
        # symbol bounds
        sbn = {}
        diffs = []
        for s in set(A.sb) | set(B.sb):
            a, b = A.sbounds(s), B.sbounds(s)
            if a != b: diffs.append(s)
            h = (min(a[0], b[0]), max(a[1], b[1]))
            if h != (s.lo, s.hi): sbn[s] = h
        J.sb = sbn
        J.bf = {k: v for k, v in A.bf.items() if B.bf.get(k) == v}
        mon = {}
        for k in set(A.mon) | set(B.mon):
            x, y = A.mon.get(k), B.mon.get(k)
            if x == y: mon[k] = x
            elif k[0] == "eq":
                if x and y and x & y: mon[k] = x & y
            elif k == "locs":
                mon[k] = tuple(z for z in x or () if z in (y or ()))
            elif self.mon_join is not None:
                z = self.mon_join(k, x, y)
                if z is not None: mon[k] = z
        J.mon = mon
        fresh = set()
        piv = []          # (sym, rA, rB, d)
        todo = []
        eqA, eqB = self.equalities(A), self.equalities(B)
        moved = {s for s in set(eqA) | set(eqB) if not (s in eqA and s in eqB and leq(eqA[s], eqB[s]))}
        if moved:
            # the values that mention a symbol solved differently on the two sides have to be expressed anew
            self.moved_slots(moved, eJ, J, sl)
        for rec in sl:
            a, b, setters = rec
            if a.lin is not None and b.lin is not None and a.lm == b.lm and leq(a.lin, b.lin) and not (moved and any(s in moved for s in a.lin[1])) or a.w == 1:
                v = self.hullv(A, a, B, b, thr, hard)
                if a.w > 1 : v.lin = a.lin; v.lm = a.lm
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                continue
            la = lb = None
            if (a.lin is not None or a.lo == a.hi) and (b.lin is not None or b.lo == b.hi) and a.w >= 8:
                ip.lin(a); ip.lin(b)
                la, lb = A.rep_lin(a), B.rep_lin(b)
                if la is None and ip.pivot_big:
                    la = A.ulin(a)
                    if la is not None and a.lo < 0: a = with_range(a, 0, min(a.hi, A.upper(la)))
                if lb is None and ip.pivot_big:
                    lb = B.ulin(b)
                    if lb is not None and b.lo < 0: b = with_range(b, 0, min(b.hi, B.upper(lb)))
                if rec[0] is not a or rec[1] is not b: rec = (a, b, setters)
                if la is not None and eqA: la = lsubst(la, eqA)
                if lb is not None and eqB: lb = lsubst(lb, eqB)
            if la is None or lb is None:
                v = self.hullv(A, a, B, b, thr, hard)
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                continue
            d = ladd(lb, la, -1)
            if loop and a.w == 8 and d[1] and ip.pivot_big:
                v = self.hullv(A, a, B, b, thr, hard)
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                continue
            wgt = abs(d[0]) if not d[1] else 1 + sum(abs(c) for c in d[1].values()) + (1 << 20)
            todo.append((wgt, len(todo), rec, la, lb, d))
        todo.sort(key=lambda x: (-x[0] if ip.pivot_big and x[0] < 1 << 20 else x[0], x[1]))
        symJ = {}
        cands = []
        for s in sorted(moved, key=lambda s: s.id):
            la = eqA.get(s, (0, {s: 1})); lb = eqB.get(s, (0, {s: 1}))
            d = ladd(lb, la, -1)
            if not d[1] and not d[0]: continue
            if any(self.ratio(d, c[3]) is not None for c in cands): continue
            cands.append((s, la, lb, d))
        for wgt, _, rec, la, lb, d in todo:
            a, b, setters = rec
            done = False
            for c in cands if ip.join_facts else ():
                if self.ratio(d, c[3]) is not None and not any(self.ratio(d, p[3]) is not None for p in piv):
                    s, ca, cb, cd = c
                    xa, xb = A.leval(ca), B.leval(cb)
                    t = Sym("j", min(xa[0], xb[0]), max(xa[1], xb[1]), s.lab)
                    if thr is not None: t.lo = min(t.lo, s.lo); t.hi = max(t.hi, s.hi)
                    fresh.add(t); piv.append((t, ca, cb, cd, 64)); cands.remove(c)
                    break
            for (t, ra, rb, dp, w0) in piv:
                k = self.ratio(d, dp)
                if k is None: continue
                base = ladd(la, ra, -k)
                if len(base[1]) >= MAXTERMS: continue
                lin = ladd(base, (0, {t: k}))
                v = self.hullv(A, a, B, b, thr, hard, lin, J)
                v.lin = lin; v.lm = v.w
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                done = True; break
            if done: continue
            if d[1] == {} and d[0] == 0:
                lin = la
                v = self.hullv(A, a, B, b, thr, hard); v.lin = lin; v.lm = v.w
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                continue
            xa = A.leval(la) if len(la[1]) < 2 or not A.facts else (-A.upper(lscale(la, -1)), A.upper(la))
            xb = B.leval(lb) if len(lb[1]) < 2 or not B.facts else (-B.upper(lscale(lb, -1)), B.upper(lb))
            ra_, rb_ = A.rng(a), B.rng(b)
            # representative ranges refined by intervals when they are in the same window
            wa = (max(xa[0], ra_[0]) if ra_[0] <= xa[1] else xa[0], min(xa[1], ra_[1]) if ra_[1] >= xa[0] else xa[1])
            wb = (max(xb[0], rb_[0]) if rb_[0] <= xb[1] else xb[0], min(xb[1], rb_[1]) if rb_[1] >= xb[0] else xb[1])
            if thr is None and a.w == 32:
                k = min((0, -(1 << 32), 1 << 32), key=lambda k: max(wa[1], wb[1] + k) - min(wa[0], wb[0] + k))
                if k:
                    lb = ladd(lb, lconst(k)); d = ladd(d, lconst(k)); wb = (wb[0] + k, wb[1] + k); xb = (xb[0] + k, xb[1] + k); rb_ = (rb_[0] + k, rb_[1] + k)
            lo, hi = min(wa[0], wb[0]), max(wa[1], wb[1])
            if hi - lo >= (1 << a.w):
                v = self.hullv(A, a, B, b, thr, hard)
                self.extra(A, a, B, b, v)
                for s in setters: s(v)
                continue
            if thr is not None:
                o_lo = min(xa[0], ra_[0]) ; 
                if lo < max(xa[0], ra_[0]):
                    t_ = wthr(lo, True, thr); lo = t_ if t_ is not None and not hard else -(1 << (a.w - 1)) if lo < 0 else 0
                if hi > min(xa[1], ra_[1]):
                    t_ = wthr(hi, False, thr)
                    hi = t_ if t_ is not None and not hard else ((1 << a.w) - 1 if lo >= 0 else (1 << (a.w - 1)) - 1)
                    if a.w == 64 and hi > (1 << 62) and lo >= 0: hi = (1 << 63) - 1
            t = Sym("j", lo, hi, a.lab | b.lab)
            fresh.add(t)
            if ip.join_facts: piv.append((t, la, lb, d, a.w))
            v = V(a.w, lo, hi, (0, {t: 1}), a.w, None, None, a.lab | b.lab)
            self.extra(A, a, B, b, v)
            for s in setters: s(v)
        for s in moved:
            la = eqA.get(s, (0, {s: 1})); lb = eqB.get(s, (0, {s: 1}))
            d = ladd(lb, la, -1)
            for (t, ra, rb, dp, w0) in piv:
                k = self.ratio(d, dp)
                if k is None: continue
                base = ladd(la, ra, -k)
                if not any(x in moved for x in base[1]): symJ[s] = ladd(base, (0, {t: k})); break
        # segments whose end could not be expressed
        for o in J.mem.values():
            if o.segs and any(g.end is None for g in o.segs):
                o.segs = [g for g in o.segs if g.end is not None]
        self.facts(A, B, J, piv, diffs, eJ, symJ, strict)
        J.ev = A.ev
        return J, eJ, fresh

    def equalities(self, X):
        """symbols determined by the others: {symbol: linear form}"""
        m = {}
        if not self.ip.join_facts: return m
        sym0 = self.ip.sym0()
        for s, (a, b) in X.sb.items():
            if a == b and s.id >= sym0: m[s] = (a, {})
        if len(X.facts) > 1:
            seen = {}
            for f in X.facts:
                k = lkey(f)
                if seen.get((-k[0], tuple((i, -c) for i, c in k[1]))) is not None:
                    g = lsubst(f, m) if m else f
                    best = None
                    for s, c in g[1].items():
                        if abs(c) == 1 and s.id >= sym0 and (best is None or s.id > best.id): best = s
                    if best is not None:
                        c = g[1][best]
                        e = lscale((g[0], {x: y for x, y in g[1].items() if x is not best}), -c)
                        for x in list(m): m[x] = lsubst(m[x], {best: e})
                        m[best] = e
                seen[k] = True
        return m
    def moved_slots(self, moved, eJ, J, sl):
        have = set()
        def uses(v): return v.__class__ is V and v.lin is not None and any(s in moved for s in v.lin[1])
        idx = {}
        def put(v, setter):
            r = idx.get(id(v))
            if r is None: r = idx[id(v)] = [v, v, []]; sl.append(r)
            r[2].append(setter)
        for k, v in eJ.items():
            if uses(v): put(v, lambda x, k=k: eJ.__setitem__(k, x))
            elif v.__class__ is P and uses(v.off): put(v.off, lambda x, k=k, o=v: eJ.__setitem__(k, P(o.obj, x, o.lab)))
        for name in list(J.mem):
            o = J.mem[name]
            if name.startswith("@"): continue
            hit = [k for k, (z, v) in o.cells.items() if (name, k) not in self.differ and (uses(v) or v.__class__ is P and uses(v.off))]
            gs = [i for i, g in enumerate(o.segs) if g.end is not None and (any(s in moved for s in g.end[1]) or any(s in moved for s in g.start[1]))]
            if not hit and not gs: continue
            o = J.w(name)
            for k in hit:
                z, v = o.cells[k]
                if v.__class__ is P: put(v.off, lambda x, o=o, k=k, z=z, v=v: o.cells.__setitem__(k, (z, P(v.obj, x, v.lab))))
                else: put(v, lambda x, o=o, k=k, z=z: o.cells.__setitem__(k, (z, x)))
            for i in gs:
                g = o.segs[i]
                if any(s in moved for s in g.start[1]): continue
                g = Seg(g.start, g.end, g.sz, g.v, g.prov); o.segs[i] = g
                lo, hi = J.leval(g.end)
                v = V(64, lo, hi, g.end, 64)
                put(v, lambda x, g=g: setattr(g, "end", x.lin))

    def ratio(self, d, dp):
        if not dp[1]:
            if d[1] or dp[0] == 0: return None
            return d[0] // dp[0] if d[0] % dp[0] == 0 else None
        s = next(iter(dp[1]))
        c = d[1].get(s)
        if c is None or c % dp[1][s]: return None
        k = c // dp[1][s]
        return k if leq(lscale(dp, k), d) else None

    def hullv(self, A, a, B, b, thr, hard, lin=None, J=None):
        al, ah = A.trng(a) if a.w == 64 else A.rng(a)
        bl, bh = B.trng(b) if b.w == 64 else B.rng(b)
        M = 1 << a.w
        lo, hi = min(al, bl), max(ah, bh)
        best = (hi - lo, lo, hi)
        for k in (-M, M):
            x, y = min(al, bl + k), max(ah, bh + k)
            if y - x < best[0]: best = (y - x, x, y)
        _, lo, hi = best
        if thr is not None:
            if lo < al:
                t_ = wthr(lo, True, thr); lo = t_ if t_ is not None and not hard else (-(M >> 1) if lo < 0 else 0)
            if hi > ah:
                t_ = wthr(hi, False, thr); hi = t_ if t_ is not None and not hard else (M - 1 if lo >= 0 else (M >> 1) - 1)
                if a.w == 64 and lo >= 0 and bh < (1 << 62): hi = min(hi, (1 << 63) - 1)
        return V(a.w, lo, hi, None, None, None, None, a.lab | b.lab)

    def extra(self, A, a, B, b, v):
        if self.ip.track_bits:
            p, q = self.ip.bits(a, A), self.ip.bits(b, B)
            if p is not None and q is not None:
                bits = tuple(x if x == y else None for x, y in zip(p, q))
                if any(x is not None for x in bits): v.bits = bits
        if (self.ip.want_cq or a.cq is not None or b.cq is not None) and not (v.lo == 0 and v.hi == (1 << v.w) - 1):
            ca, cb = A.getcq(a), B.getcq(b)
            if ca is not None and cb is not None and leq(ca, cb):
                # same representative window on both sides
                for f in ("rng", "trng"):
                    (al, ah), (bl, bh) = getattr(A, f)(a), getattr(B, f)(b)
                    if a.lo <= al and ah <= a.hi and b.lo <= bl and bh <= b.hi and v.lo <= min(al, bl) and v.hi >= max(ah, bh):
                        v.cq = ca; break
        if a.cond is not None and a.cond == b.cond: v.cond = a.cond

    def facts(self, A, B, J, piv, diffs, eJ, symJ, strict):
        out = []
        if not self.ip.join_facts: return out
        live = set()
        for v in eJ.values():
            if v.__class__ is P: v = v.off
            if v.__class__ is V and v.lin is not None: live.update(v.lin[1])
        for p in piv: live.add(p[0])
        for n, o in J.mem.items():
            live.update(o.size[1])
            for g in o.segs: live.update(g.start[1]); live.update(g.end[1])
            if o.cells and len(o.cells) < 40:
                for z, v in o.cells.values():
                    if v.__class__ is V and v.lin is not None: live.update(v.lin[1])
        sym0 = self.ip.sym0()
        groups = {}       # linear part -> {constant: [okA, okB]}
        def cand(f, okA, okB):
            """f over J's symbols; valid in X after substituting pivots"""
            if not f[1] : return
            for s in f[1]:
                if s.id >= sym0 and s not in live: return
            g = groups.setdefault(lkey((0, f[1]))[1], [f[1], {}])
            o = g[1].get(f[0])
            if o is None: g[1][f[0]] = [okA, okB]
            else: o[0] |= okA; o[1] |= okB
        def settle():
            for lin, cs in groups.values():
                for c in sorted(cs):
                    okA, okB = cs[c]
                    f = (c, lin)
                    lo, hi = J.leval(f)
                    if lo >= 0: break
                    if not okA and not A.prove(lsubst(f, mA)): continue
                    if not okB and not B.prove(lsubst(f, mB)): continue
                    out.append(f)
                    break
        mA = {t: ra for t, ra, rb, d, w in piv}
        mB = {t: rb for t, ra, rb, d, w in piv}
        fb = {id(f) for f in B.facts}
        for f in A.facts: cand(f, True, id(f) in fb)
        if not strict:
            for f in B.facts: cand(f, False, True)
        if symJ:
            for X in ((A,) if strict else (A, B)):
                for f in X.facts:
                    g = self.subst_once(f, symJ)
                    if g is not None: cand(g, False, False)
        subA = self.inverse(piv, 1); subB = self.inverse(piv, 2)
        for f in A.facts:
            g = self.subst_once(f, subA)
            if g is not None: cand(g, False, False)
        if strict:
            settle()
            J.facts = out[-60:]
            return
        for f in B.facts:
            g = self.subst_once(f, subB)
            if g is not None: cand(g, False, False)
        for (t, ra, rb, d, w) in piv:
            for r in (ra, rb):
                if r[1]:
                    x = ladd(r, (0, {t: 1}), -1)
                    cand(x, False, False); cand(lscale(x, -1), False, False)
        # bounds of symbols that moved together with a pivot
        for (t, ra, rb, d, w) in piv:
            for s in [x for x in diffs if x.id < sym0 or x in live][:8]:
                for sg in (1, -1):
                    ia = 0 if sg == 1 else 1
                    da = A.sbounds(s)[ia]; db = B.sbounds(s)[ia]
                    if da == db: continue
                    ks = {1, -1}
                    if not d[1] and d[0] and (db - da) % d[0] == 0: ks.add((db - da) // d[0] * (1 if sg == 1 else 1))
                    for k in ks:
                        # sg*s - sg*k*t + c >= 0
                        base = (0, {s: sg})
                        la_ = -A.upper(ladd(lscale(base, -1), ra, sg * k), 2); lb_ = -B.upper(ladd(lscale(base, -1), rb, sg * k), 2)
                        c = -min(la_, lb_)
                        if abs(c) < (1 << 62):
                            cand(ladd((c, {s: sg}), (0, {t: 1}), -sg * k), True, True)
        # relations between pivots (both moved by constants)
        for i, (t, ra, rb, d, w) in enumerate(piv):
            for (t2, ra2, rb2, d2, w2) in piv[i + 1:]:
                for k in (1, -1):
                    f = ladd((0, {t: 1}), (0, {t2: 1}), -k)
                    lo = min(A.leval(ladd(ra, ra2, -k))[0], B.leval(ladd(rb, rb2, -k))[0])
                    if abs(lo) < (1 << 40): cand(ladd(f, lconst(-lo)), True, True)
                    hi = max(A.leval(ladd(ra, ra2, -k))[1], B.leval(ladd(rb, rb2, -k))[1])
                    if abs(hi) < (1 << 40): cand(ladd(lscale(f, -1), lconst(hi)), True, True)
        settle()
        J.facts = out[-60:]

    def inverse(self, piv, which):
        m = {}
        for p in piv:
            t, r = p[0], p[which]
            for s, c in r[1].items():
                if abs(c) == 1 and s not in m:
                    rest = (r[0], {x: y for x, y in r[1].items() if x is not s})
                    m[s] = lscale(ladd((0, {t: 1}), rest, -1), c)
                    break
        return m
    def subst_once(self, f, m):
        if not any(s in m for s in f[1]): return None
        return lsubst(f, m)

    # ---------------------------------------------------------------- inclusion
    def included(self, N, eN, I, eI, hs):
        """every concrete state of N is one of I"""
        ip = self.ip
        pairs = []
        for k, vi in eI.items():
            vn = eN.get(k)
            if vn is None: return False
            if vi is vn and (not hs or not self.uses(vi, hs)): continue
            if vi.__class__ is V:
                if vn.__class__ is not V: return False
                pairs.append((vi, vn))
            elif vi.__class__ is P:
                if vn.__class__ is not P or vn.obj != vi.obj: return False
                pairs.append((vi.off, vn.off))
        segs = []
        for name, oi in I.mem.items():
            on = N.mem.get(name)
            if on is None:
                if name.startswith("@"): continue
                return False
            if oi is on and not hs: continue
            if on.smear is not None and (oi.smear is None or on.smear & ~oi.smear): return False
            if on.default != oi.default: return False
            if oi.default in ("zero", "input", "top") and oi.smear is None:
                for k, x in on.cells.items():
                    if k not in oi.cells and not ip.overlaps(oi, k, x[0]): return False
                if on.segs and not oi.segs: return False
            for k, x in oi.cells.items():
                y = on.cells.get(k)
                if y is None or y[0] != x[0]: return False
                if isinstance(x[1], V):
                    if not isinstance(y[1], V): return False
                    if x[1] is y[1] and (not hs or not self.uses(x[1], hs)): continue
                    pairs.append((x[1], y[1]))
                elif isinstance(x[1], P):
                    if not isinstance(y[1], P) or x[1].obj != y[1].obj: return False
                    pairs.append((x[1].off, y[1].off))
            for g in oi.segs:
                e, z, v, prov = self.seg_at(N, on, g.start)
                segs.append((g, e, z, v, prov))
        sig = {}
        for vi, vn in pairs:
            if vi.lin is not None and vi.lin[0] == 0 and len(vi.lin[1]) == 1 and vi.lm == vi.w:
                t, c = next(iter(vi.lin[1].items()))
                if c == 1 and t in hs and t not in sig:
                    ip.lin(vn)
                    r = N.rep_lin(vn)
                    if r is not None: sig[t] = r
        for g, e, z, v, prov in segs:
            if g.end[0] == 0 and len(g.end[1]) == 1:
                t, c = next(iter(g.end[1].items()))
                if c == 1 and t in hs and t not in sig: sig[t] = e
        for t in list(sig):
            lo, hi = N.leval(sig[t]); a, b = I.sbounds(t)
            if lo < a and not N.prove(ladd(sig[t], lconst(-a))) or hi > b and not N.prove(ladd(lconst(b), sig[t], -1)): return False
        for vi, vn in pairs:
            if vn.lab & ~vi.lab: return False
            il, ih = I.rng(vi); nl, nh = N.rng(vn)
            M = 1 << vi.w
            if nl < il or nh > ih: nl, nh = N.trng(vn)
            if not any(il <= nl + k and nh + k <= ih for k in (0, M, -M)): 
                if not (ih - il >= M - 1): return False
            if vi.lin is not None and (vi.lin[1] or vi.lo != vi.hi):
                free = [s for s in vi.lin[1] if s in hs and s not in sig]
                if free:
                    # a symbol only this value mentions carries no relation
                    return False
                ip.lin(vn)
                want = lsubst(vi.lin, sig)
                if vn.lm < vi.lm: return False
                if not lsub_eq(want, vn.lin, vi.lm) and not N.prove_eq(want, N.rep_lin(vn) or (1 << 70, {})): return False
            if vi.bits is not None:
                nb = ip.bits(vn, N)
                if nb is None: return False
                for x, y in zip(vi.bits, nb):
                    if x is not None and x != y: return False
            if vi.cq is not None:
                c = N.getcq(vn)
                if c is None: return False
                d = cq_add(c, self.qsub(vi.cq, sig), -1)
                if d[0] or d[1]: return False
        for g, e, z, v, prov in segs:
            if z is None and not leq(e, lsubst(g.start, sig)): return False
            if not N.prove_eq(lsubst(g.end, sig), e): return False
            if v is not None and isinstance(v, V) and isinstance(g.v, V):
                if z != g.sz: return False
                if v.lo < g.v.lo or v.hi > g.v.hi or v.lab & ~g.v.lab: return False
            if g.prov is not None and (prov is None or prov[0] != g.prov[0] or not leq(prov[1], g.prov[1])):
                if v is not None: return False
        for s in I.sb:
            if s in sig: continue
            a, b = I.sbounds(s); x, y = N.sbounds(s)
            if s in hs: continue
            if x < a or y > b: return False
        for f in I.facts:
            if not N.prove(lsubst(f, sig)): return False
        for k, v in I.bf.items():
            if N.bf.get(k) != v: return False
        for k, v in I.mon.items():
            if N.mon.get(k) != v and not (k == "locs" and all(z in (N.mon.get(k) or ()) for z in v)): return False
        return True
    def uses(self, v, hs):
        if v.__class__ is P: v = v.off
        if v.__class__ is not V: return False
        return v.lin is not None and any(s in hs for s in v.lin[1])
    def qsub(self, c, sig):
        out = (c[0], {})
        for s, k in c[1].items():
            r = sig.get(s)
            if r is None: out = cq_add(out, (0, {s: 1}), k)
            else: out = cq_add(out, (r[0] % Q, {x: y % Q for x, y in r[1].items() if y % Q}), k)
        return out
