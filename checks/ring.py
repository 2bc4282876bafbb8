"""C08, C09, C19: modular arithmetic, transforms and norm tests of vrfy.c and common.c.

Values are tracked as affine forms over GF(q) in the input coefficients (Karr-style affine domain with the modulus of the
scheme), products as monomials of such forms, together with intervals for the representatives.  A transform is decided by
comparing the matrix the analysis derives with the powers of the roots of X^n+1."""
from sa.values import *
from sa.state import *
from sa.interp import Interp, GiveUp
from sa import cbuild
from sa.report import Broken
import sa.values, sa.interp, sa.state, sa.join
from concurrent.futures import ProcessPoolExecutor
import multiprocessing, traceback, time

PFX = "falcon_inner_"
TRUST = ("clang 18 -O0 IR of the current source (front end, sroa, instsimplify, dce)",
         "abstract interpreter sa/ (intervals, affine forms over GF(q), monomials of forms, exact integer sums)")
MEM = ("bounds", "null", "lifetime", "const-write", "shift", "div-by-zero", "uninit")
QM2 = Q - 2

def deep(n=4000):
    sa.state.DEEP = True
    for m in (sa.values, sa.interp, sa.state, sa.join):
        if hasattr(m, "MAXTERMS"): m.MAXTERMS = n

class Dead(Exception): pass
class Sub:
    """obligations collected in a worker"""
    def __init__(self): self.l = []; self.units = {}
    def check(self, rule, ok, where, msg, key=None): self.l.append((rule, bool(ok), where, msg, key)); return ok
    def unit(self, n, d): self.units[n] = d
    def into(self, rep):
        for r, ok, w, m, k in self.l: rep.check(r, ok, w, m, key=k)
        for n, d in self.units.items(): rep.unit(n, d)

def work(t, tasks=None):
    if tasks is None: deep()
    s = Sub()
    try: return ("ok", s, (tasks or globals())[t[0]](s, *t[1:]))
    except Dead as e: return ("dead", s, str(e))
    except (GiveUp, Broken) as e: return ("broken", "%s: %s" % (t, e), None)
    except Exception: return ("broken", "%s: %s" % (t, traceback.format_exc()), None)

def pool(rep, tasks, work=work):
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(min(8, len(tasks)), mp_context=ctx) as ex: rs = list(ex.map(work, tasks))
    out = []
    for k, s, v in rs:
        if k == "dead": s.into(rep)
    for k, s, v in rs:
        if k == "dead": raise Broken("%s: nothing returns" % v)
        if k != "ok": raise Broken(s)
        s.into(rep); out.append(v)
    return out

# ------------------------------------------------------------------ harness
RNG = {}
def inputs(ranges):
    """ranges: object name -> (element size, lo, hi)"""
    tab = {}
    def f(ip, st, o, L, size):
        r = ranges.get(o.name)
        if r is None or r[0] != size: return None
        k = (o.name, lkey(L)); s = tab.get(k)
        if s is None: s = tab[k] = Sym("%s[%s]" % (o.name, lstr(L)), r[1], r[2], 0, (o.name, L))
        return V(8 * size, r[1], r[2], (0, {s: 1}), 8 * size, None, (0, {s: 1}))
    return f

def machine(unit="vrfy.c", ranges=None, paths=False):
    m = cbuild.unit(unit)
    ip = Interp([m], memo=False); ip.mono = True; ip.join_facts = False; ip.paths = paths; ip.sign_split = paths
    if ranges: ip.fresh_input = inputs(ranges)
    return m, ip

def func(m, ip, name):
    f = ip.lookup(PFX + name, m) or ip.lookup(name, m)
    if f is None: raise Broken("%s: %s not found" % (m.source, name))
    return f

def memrules(s, ip, title):
    bad = sorted((k, w, m) for (k, w), m in ip.alarms.items() if k in MEM)
    for k in MEM:
        if ip.ob.get(k): s.check("memory:" + k, True, title, "")
    for k, w, m in bad: s.check("memory:" + k, False, w, m, "%s:%s" % (title, w.split(" ")[-1]))

def cells(st, obj, base, n, w):
    o = st.mem.get(obj); out = []
    for u in range(n):
        c = o.cells.get(base + u * w) if o else None
        out.append(c[1] if c is not None and c[0] == w and isinstance(c[1], V) else None)
    return out

def index(s, w):
    """(polynomial, coefficient) of an input symbol"""
    o = s.org
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], str) and isinstance(o[1], tuple) and not o[1][1]: return o[0], o[1][0]
    return None

def evalform(x, n, w):
    """a form that is sum_j t * a_j r^j, for several polynomials a at the same r: (r, {poly: t}), or None"""
    if x[0]: return None
    cs = {}
    for s, c in x[1].items():
        i = index(s, w)
        if i is None or i[1] % w[i[0]]: return None
        cs.setdefault(i[0], {})[i[1] // w[i[0]]] = c
    root = None; out = {}
    for p, d in cs.items():
        if len(d) != n: return None
        t = d[0]; r = d[1] * pow(t, -1, Q) % Q if n > 1 else Q - 1
        if root is not None and r != root: return None
        root = r; e = t
        for j in range(n):
            if d.get(j) != e: return None
            e = e * r % Q
        out[p] = t
    if root is None or pow(root, n, Q) != Q - 1: return None
    return root, out

class Forms:
    def __init__(self, n, w): self.n = n; self.w = w; self.memo = {}
    def factor(self, s):
        """a factor of a monomial: ("eval", root, {poly: scale}) or ("coef", poly, index)"""
        if s in self.memo: return self.memo[s]
        r = None
        o = s.org
        if isinstance(o, tuple) and o[0] == "qform":
            e = evalform(o[1], self.n, self.w)
            if e is not None: r = ("eval",) + e
        else:
            i = index(s, self.w)
            if i is not None: r = ("coef", i[0], i[1] // self.w[i[0]])
        self.memo[s] = r
        return r

def mono(s):
    return s.org[1] if isinstance(s.org, tuple) and s.org[0] == "mono" else ((s, 1),)

def point(F, s, num, den, table=None):
    """the monomial s as value of prod(num)/prod(den) at a root: (root, scale), or a message.
    num, den: lists of {poly: +-1}; table: poly -> {index: (root, scale)} for polynomials given in transformed form"""
    want = [(x, 1) for x in num] + [(x, Q - 2) for x in den]
    root = None; scale = 1
    for f, e in mono(s):
        k = F.factor(f)
        if k is None: return "a factor that is no evaluation of an input polynomial"
        if k[0] == "coef":
            if not table or k[1] not in table: return "coefficient %d of %s used without transform" % (k[2], k[1])
            r, t = table[k[1]][k[2]]; d = {k[1]: t}
        else: r, d = k[1], k[2]
        if root is not None and r != root: return "factors evaluated at different roots"
        root = r
        for _ in range(1 if e == Q - 2 else e):
            hit = None
            for i, (p, ee) in enumerate(want):
                if set(p) != set(d) or ee != (e if e == Q - 2 else 1): continue
                ts = {d[q] * pow(c, -1, Q) % Q for q, c in p.items()}
                if len(ts) == 1: hit = i; t = ts.pop(); break
            if hit is None: return "unexpected factor %s^%d" % (sorted(d), e)
            want.pop(hit); scale = scale * pow(t, ee, Q) % Q
    if want: return "factor %s missing" % sorted(want[0][0])
    return root, scale

def inverse_at(F, cq, u, num, den, minus=(), table=None, sign=1):
    """cq = sign * (coefficient u of prod(num)/prod(den) mod X^n+1) + sum of c * poly_u for (poly, c) in minus; message or None"""
    if cq is None: return "value is not known as a form modulo q"
    n = F.n; roots = set(); rest = dict(minus)
    if cq[0]: return "constant term %d" % cq[0]
    inv = pow(n, -1, Q)
    for s, c in cq[1].items():
        i = index(s, F.w)
        if i is not None and i[0] in rest and i[1] == u * F.w[i[0]]:
            if c != rest.pop(i[0]) % Q: return "wrong multiple of %s" % i[0]
            continue
        p = point(F, s, num, den, table)
        if isinstance(p, str): return p
        r, t = p
        if r in roots: return "a root occurs twice"
        roots.add(r)
        if c * t % Q != sign * inv * pow(r, -u, Q) % Q: return "wrong weight for root %d" % r
    if rest: return "term %s missing" % sorted(rest)
    if len(roots) != n: return "%d of %d roots" % (len(roots), n)
    return None

def first(s, rule, title, msgs):
    """one obligation per element, the first failures reported"""
    for u, m in enumerate(msgs): s.check(rule, m is None, title, "element %d: %s" % (u, m), key=title)

def unary(s, fname, logn, static=False):
    """an in-place transform of a reduced polynomial: list of cq and obligations on ranges"""
    n = 1 << logn; title = "%s(logn=%d)" % (fname, logn)
    m, ip = machine(ranges={"a": (2, 0, Q - 1)})
    st = State(); st.mem["a"] = Obj("a", 2 * n, "input")
    rs = ip.run(func(m, ip, fname), [P("a", C(64, 0)), C(32, logn)], st)
    memrules(s, ip, title)
    s.unit(title, {"abstract steps": ip.steps, "return states": len(rs)})
    if not rs: s.check("returns", False, title, "%s: no path of the function returns: it loops for ever or leaves its arrays for every input" % title, title); raise Dead(title)
    if len(rs) != 1: raise Broken("%s: %d return states" % (title, len(rs)))
    st = rs[0][0]; out = []
    for u, v in enumerate(cells(st, "a", 0, n, 2)):
        if not s.check("written", v is not None, title, "element %d is not written" % u, title): out.append(None); continue
        lo, hi = st.rng(v)
        s.check("reduced", 0 <= lo and hi <= Q - 1, title, "element %d ranges over %d..%d" % (u, lo, hi), title)
        out.append(st.getcq(v))
    return out

def t_ntt(s, fname, logn, scale):
    """every output is scale * a(r) at a root r of X^n+1, each root once; returns [(root, scale)]"""
    n = 1 << logn; title = "%s(logn=%d)" % (fname, logn)
    out = unary(s, fname, logn); tab = []; seen = set()
    for u, x in enumerate(out):
        e = evalform(x, n, {"a": 2}) if x is not None else None
        if not s.check("evaluation", e is not None, title, "output %d is not an evaluation of the input at a root of X^n+1" % u, title): tab.append(None); continue
        s.check("distinct-roots", e[0] not in seen, title, "output %d repeats a root" % u, title); seen.add(e[0])
        s.check("scale", e[1]["a"] == scale % Q, title, "output %d is scaled by %d instead of %d" % (u, e[1]["a"], scale % Q), title)
        tab.append((e[0], e[1]["a"]))
    return tab

def t_intt(s, fname, logn):
    """linear map a_k -> coefficient weights; returns the matrix rows as dicts index -> weight"""
    out = unary(s, fname, logn)
    return [None if x is None else (x[0], {index(y, None)[1] // 2: c for y, c in x[1].items()}) for x in out]

def t_verify_raw(s, logn, shape):
    """shape: the part about what is handed to the norm test (C08) or the polynomial (C19)"""
    n = 1 << logn; title = "verify_raw(logn=%d)" % logn
    tabs = Sub(); tab = t_ntt(tabs, "to_ntt_monty", logn, 65536)
    if None in tab: s.l += [x for x in tabs.l if not x[1]]; return
    w = {"c0": 2, "s2": 2, "h": 2}
    m, ip = machine(ranges={"c0": (2, 0, Q - 1), "s2": (2, 1 - Q, Q - 1), "h": (2, 0, Q - 1)})
    st = State()
    for o in w: st.mem[o] = Obj(o, 2 * n, "input")
    st.mem["tmp"] = Obj("tmp", 2 * n, "uninit")
    seen = []
    def norm(ip, st, args, ctx):
        F = Forms(n, w); seen.append(1)
        s.check("norm-degree", args[2].const() and args[2].cval() == logn, title, "norm test for another degree", title)
        got = {}
        for p in args[:2]:
            if not isinstance(p, P) or p.obj is None or p.off.lo != p.off.hi: s.check("norm-args", False, title, "argument of the norm test is no array", title); return [(st, C(32, 0))]
            x = []
            for u in range(n):
                x.append(ip.load_const(st, st.mem[p.obj], p.off.lo + 2 * u, 2, 16, False, ctx))
            # is it the decoded signature itself?
            same = all(isinstance(v, V) and v.lin is not None and v.lin[0] == 0 and len(v.lin[1]) == 1 and index(next(iter(v.lin[1])), w) == ("s2", 2 * u) and next(iter(v.lin[1].values())) == 1 for u, v in enumerate(x))
            if same: got["s2"] = x
            else: got["s1"] = x
        s.check("norm-args", set(got) == {"s1", "s2"}, title, "the norm test does not get both the computed half and the decoded signature", title)
        if "s1" in got:
            msgs = []; sign = None
            for u, v in enumerate(got["s1"]):
                lo, hi = st.sr(v) if isinstance(v, V) else (-1 << 20, 1 << 20)
                s.check("centred", -(Q // 2) <= lo and hi <= Q // 2, title, "element %d of the computed half ranges over %d..%d" % (u, lo, hi), title)
                x = st.getcq(v) if isinstance(v, V) else None
                if sign is None and x is not None:
                    for y, c in x[1].items():
                        if index(y, w) == ("c0", 0): sign = -1 if c == 1 else 1
                sg = sign or 1
                msgs.append(inverse_at(F, x, u, [{"s2": 1}, {"h": 1}], [], [("c0", -sg % Q)], {"h": dict(enumerate(tab))}, sg))
            first(s, "hash-minus-product", title, msgs)
        a = st.fork(); b = st
        a.mon["norm"] = 0; b.mon["norm"] = 1
        return [(a, C(32, 0)), (b, C(32, 1))]
    ip.hooks[PFX + "is_short"] = norm
    rs = ip.run(func(m, ip, "verify_raw"), [P(o, C(64, 0)) for o in ("c0", "s2", "h")] + [C(32, logn), P("tmp", C(64, 0))], st)
    memrules(s, ip, title)
    s.unit(title, {"abstract steps": ip.steps, "return states": len(rs)})
    s.check("norm-called", len(seen) >= 1, title, "the norm test is not called", title)
    acc = 0
    for st, r in rs:
        lo, hi = st.rng(r)
        if lo == hi == 0:
            s.check("rejects", st.mon.get("norm") == 0, title, "rejects although the norm test accepts", title); continue
        acc += 1
        s.check("accepts", st.mon.get("norm") == 1, title, "may accept although the norm test did not accept", title)
    s.check("accepts-some", acc > 0, title, "never accepts", title)

# ------------------------------------------------------------------ other ring functions
def run_ring(s, fname, logn, ranges, tmpbytes, order, hooks=None, paths=False):
    n = 1 << logn
    m, ip = machine(ranges=ranges, paths=paths)
    st = State()
    for o, r in ranges.items(): st.mem[o] = Obj(o, r[0] * n, "input")
    if tmpbytes: st.mem["tmp"] = Obj("tmp", tmpbytes, "uninit")
    for o in order:
        if o != "logn" and o not in st.mem: st.mem[o] = Obj(o, 2 * n if o != "G" else n, "uninit")
    for k, h in (hooks or {}).items(): ip.hooks[k] = h
    rs = ip.run(func(m, ip, fname), [C(32, logn) if o == "logn" else P(o, C(64, 0)) for o in order], st)
    title = "%s(logn=%d%s)" % (fname, logn, ", every path" if paths else "")
    memrules(s, ip, title)
    s.unit(title, {"abstract steps": ip.steps, "return states": len(rs)})
    return rs, title, ip

def t_complete(s, fname):
    """constant polynomials that are not zero are invertible: with the norm accepted, no rejection is left (degree 1, both signs)"""
    for sg in (0, 1):
        def norm(ip, st, args, ctx): return [(st, C(32, 1))]
        hooks = {}
        if fname.startswith("verify_recover"):
            rg = {"c0": (2, 0, Q - 1), "s1": (2, 1 - Q, Q - 1), "s2": (2, 1, Q - 1) if sg else (2, 1 - Q, -1)}
            order, hooks = ("h", "c0", "s1", "s2", "logn", "tmp"), {PFX + "is_short": norm}
        elif fname == "compute_public": rg = {"f": (1, 1, 127) if sg else (1, -127, -1), "g": (1, -127, 127)}; order = ("h", "f", "g", "logn", "tmp")
        else: rg = {"s2": (2, 1, Q - 1) if sg else (2, 1 - Q, -1)}; order = ("s2", "logn", "tmp")
        rs, title, ip = run_ring(s, fname, 0, rg, 2, order, hooks)
        for st, r in rs:
            lo, hi = st.rng(r)
            s.check("complete", lo > 0 or hi < 0, title, "rejects a non-zero constant divisor (returns %d..%d)" % (lo, hi), title)

def ret01(s, st, r, title):
    """0, 1 or None"""
    lo, hi = st.rng(r)
    if lo == hi: return 0 if lo == 0 else 1
    s.check("verdict", False, title, "a return state is neither acceptance nor rejection (%r)" % r, title)
    return None

def t_public(s, logn):
    n = 1 << logn; w = {"f": 1, "g": 1}
    rs, title, ip = run_ring(s, "compute_public", logn, {"f": (1, -127, 127), "g": (1, -127, 127)}, 2 * n, ("h", "f", "g", "logn", "tmp"))
    F = Forms(n, w); acc = 0
    for st, r in rs:
        k = ret01(s, st, r, title)
        if k != 1: continue
        acc += 1; msgs = []
        for u, v in enumerate(cells(st, "h", 0, n, 2)):
            if v is None: msgs.append("not written"); continue
            lo, hi = st.rng(v)
            s.check("reduced", 0 <= lo and hi < Q, title, "element %d ranges over %d..%d" % (u, lo, hi), title)
            msgs.append(inverse_at(F, st.getcq(v), u, [{"g": 1}], [{"f": 1}]))
        first(s, "quotient", title, msgs)
        zero = divisor_nonzero(st, ip, F, {"f": 1})
        s.check("invertible", zero == n, title, "succeeds although %d of %d values of the divisor may be zero" % (n - zero, n), title)
    s.check("accepts-some", acc > 0, title, "never succeeds", title)

def divisor_nonzero(st, ip, F, p, obj="tmp", base=0):
    """number of distinct roots at which memory holds a non-zero evaluation of p"""
    roots = set()
    for o in st.mem.values():
        if o.name not in (obj,): continue
        for c, x in o.cells.items():
            v = x[1]
            if not isinstance(v, V): continue
            q = st.getcq(v)
            if q is None: continue
            e = evalform(q, F.n, F.w)
            if e is None or set(e[1]) != set(p): continue
            lo, hi = st.rng(v)
            if lo > 0 and hi < Q: roots.add(e[0])
    return len(roots)

def t_private(s, logn):
    n = 1 << logn; w = {"f": 1, "g": 1, "F": 1}
    rs, title, ip = run_ring(s, "complete_private", logn, {x: (1, -127, 127) for x in w}, 4 * n, ("G", "f", "g", "F", "logn", "tmp"))
    F = Forms(n, w); acc = 0
    for st, r in rs:
        k = ret01(s, st, r, title)
        if k != 1: continue
        acc += 1; msgs = []
        for u, v in enumerate(cells(st, "G", 0, n, 1)):
            if v is None: msgs.append("not written"); continue
            lo, hi = st.sr(v)
            s.check("reduced", -127 <= lo and hi <= 127, title, "element %d ranges over %d..%d" % (u, lo, hi), title)
            msgs.append(inverse_at(F, st.getcq(v), u, [{"g": 1}, {"F": 1}], [{"f": 1}]))
        first(s, "quotient", title, msgs)
    s.check("accepts-some", acc > 0, title, "never succeeds", title)

def t_recover(s, fname, logn, ntt):
    n = 1 << logn; w = {"c0": 2, "s1": 2, "s2": 2}
    calls = []
    def norm(ip, st, args, ctx):
        for i, p in enumerate(args[:2]):
            ok = isinstance(p, P) and p.off.lo == p.off.hi == 0 and p.obj in ("s1", "s2")
            s.check("norm-args", ok, "%s(logn=%d)" % (fname, logn), "the norm test does not get the signature halves", fname)
            if ok: calls.append(p.obj)
        s.check("norm-degree", args[2].const() and args[2].cval() == logn, fname, "norm test for another degree", fname)
        a = st.fork(); b = st
        a.mon["norm"] = 0; b.mon["norm"] = 1
        return [(a, C(32, 0)), (b, C(32, 1))]
    rs, title, ip = run_ring(s, fname, logn, {"c0": (2, 0, Q - 1), "s1": (2, 1 - Q, Q - 1), "s2": (2, 1 - Q, Q - 1)}, 2 * n,
                             ("h", "c0", "s1", "s2", "logn", "tmp"), {PFX + "is_short": norm})
    s.check("norm-args", set(calls) == {"s1", "s2"}, title, "the norm test does not get both halves", title)
    F = Forms(n, w); acc = 0
    for st, r in rs:
        k = ret01(s, st, r, title)
        if k != 1: continue
        acc += 1
        s.check("accepts", st.mon.get("norm") == 1, title, "may accept although the norm test did not accept", title)
        nz = divisor_nonzero(st, ip, F, {"s2": 1})
        s.check("invertible", nz == n, title, "accepts although %d of %d values of the divisor may be zero" % (n - nz, n), title)
        num, den = [{"c0": 1, "s1": Q - 1}], [{"s2": 1}]; msgs = []; seen = set()
        for u, v in enumerate(cells(st, "h", 0, n, 2)):
            if v is None: msgs.append("not written"); continue
            lo, hi = st.rng(v)
            s.check("reduced", 0 <= lo and hi < Q, title, "element %d ranges over %d..%d" % (u, lo, hi), title)
            x = st.getcq(v)
            if not ntt: msgs.append(inverse_at(F, x, u, num, den)); continue
            if x is None or x[0] or len(x[1]) != 1: msgs.append("not a single quotient"); continue
            (y, c), = x[1].items()
            p = point(F, y, num, den)
            if isinstance(p, str): msgs.append(p)
            elif p[0] in seen: msgs.append("a root occurs twice")
            else: seen.add(p[0]); msgs.append(None if c * p[1] % Q == 1 else "wrong scale")
        first(s, "quotient", title, msgs)
    s.check("accepts-some", acc > 0, title, "never succeeds", title)

def t_invertible(s, fname, logn):
    n = 1 << logn; w = {"s2": 2}
    rs, title, ip = run_ring(s, fname, logn, {"s2": (2, 1 - Q, Q - 1)}, 2 * n, ("s2", "logn", "tmp"))
    F = Forms(n, w); acc = 0
    for st, r in rs:
        if ret01(s, st, r, title) != 1: continue
        acc += 1
        nz = divisor_nonzero(st, ip, F, {"s2": 1})
        s.check("invertible", nz == n, title, "accepts although %d of %d values may be zero" % (n - nz, n), title)
    s.check("accepts-some", acc > 0, title, "never accepts", title)

def t_hint(s, logn):
    n = 1 << logn; w = {"s2": 2}
    rs, title, ip = run_ring(s, "hint_epervier", logn, {"s2": (2, 1 - Q, Q - 1)}, 0, ("s2", "logn"))
    F = Forms(n, w)
    for st, r in rs:
        lo, hi = st.rng(r)
        s.check("reduced", 0 <= lo and hi < Q, title, "the hint ranges over %d..%d" % (lo, hi), title)
        x = st.getcq(r); msg = None
        if x is None or x[0] or len(x[1]) != 1: msg = "not a product of evaluations"
        else:
            (y, c), = x[1].items(); roots = set(); sc = c
            for f, e in mono(y):
                k = F.factor(f)
                if k is None or k[0] != "eval" or e % (Q - 1) != Q - 2: msg = "unexpected factor"; break
                if k[1] in roots: msg = "root occurs twice"; break
                roots.add(k[1]); sc = sc * pow(k[2]["s2"], Q - 2, Q) % Q
            if msg is None and len(roots) != n: msg = "%d of %d roots" % (len(roots), n)
            if msg is None and sc != 1: msg = "scaled by %d" % sc
        s.check("product-inverse", msg is None, title, "the hint is not the inverse of the product of all evaluations: %s" % msg, title)

# ------------------------------------------------------------------ norm tests
BOUND = {1: 101498, 2: 208714, 3: 428865, 4: 892039, 5: 1852696, 6: 3842630, 7: 7959734, 8: 16468416, 9: 34034726, 10: 70265242}

def squares(ip, names, n, extra):
    """exact integer form of the sum of squares of all coefficients, or the first coefficient never squared"""
    L = dict(extra); by = {}
    for x in ip.prod.values():
        o = x.org
        if o[0] == "mul" and leq(o[1], o[2]) and not o[1][0] and len(o[1][1]) == 1:
            (y, c), = o[1][1].items(); i = index(y, None)
            if abs(c) == 1 and i: by[i] = x
    for p in names:
        for u in range(n):
            x = by.get((p, 2 * u))
            if x is None: return None, "%s[%d] is never squared" % (p, u)
            L[x] = L.get(x, 0) + 1
    return (0, L), None

def holds(st, lin):
    """lin >= 0"""
    for f in st.facts:
        if f[1] == lin[1] and f[0] <= lin[0]: return True
    if st.leval(lin)[0] >= 0: return True
    return len(lin[1]) <= 40 and st.prove(lin)

def t_norm(s, fname, logn, paths):
    n = 1 << logn; title = "%s(logn=%d%s)" % (fname, logn, ", every path" if paths else "")
    names = ("s1", "s2") if fname == "is_short" else ("s2",)
    m, ip = machine("common.c", {x: (2, -32768, 32767) for x in names}, paths)
    st = State(); ip.sign_split = True
    for x in names: st.mem[x] = Obj(x, 2 * n, "input")
    extra = {}
    if fname == "is_short": args = [P("s1", C(64, 0)), P("s2", C(64, 0)), C(32, logn)]
    else:
        q = Sym("sqn", 0, (1 << 32) - 1); extra = {q: 1}
        args = [V(32, 0, (1 << 32) - 1, (0, {q: 1}), 32), P("s2", C(64, 0)), C(32, logn)]
    rs = ip.run(func(m, ip, fname), args, st)
    memrules(s, ip, title)
    s.unit(title, {"abstract steps": ip.steps, "return states": len(rs)})
    L, msg = squares(ip, names, n, extra)
    s.check("every-coefficient", L is not None, title, msg or "", title)
    if L is None: return
    B = BOUND[logn]; acc = 0
    le = (B, {x: -c for x, c in L[1].items()}); gt = (-B - 1, L[1])
    for st, r in rs:
        outs = []
        for t in (True, False):
            x = st.fork()
            lo, hi = x.rng(r)
            if lo == hi:
                if (lo != 0) == t: outs.append((x, t))
                continue
            if not (lo > 0 or hi < 0) and r.cond is not None:
                outs += [(y, t) for y, _ in ip.assume(x, {}, r.cond, t)]
            else:
                s.check("verdict", False, title, "a return value of unknown meaning (%r)" % r, title)
        for x, t in outs:
            if t:
                acc += 1
                s.check("sound", holds(x, le), title, "accepts on a path where the sum of all squares is not known to be at most %d" % B, title)
            elif paths:
                s.check("complete", holds(x, gt), title, "rejects on a path where the sum of all squares is not known to exceed %d" % B, title)
    s.check("accepts-some", acc > 0, title, "never accepts", title)

# ------------------------------------------------------------------ helpers
def t_helpers(s):
    """every integer-only modular helper of vrfy.c over all operands in [0, q-1]"""
    R = 65536
    m, ip0 = machine()
    spec = {"mq_add": ("lin", (1, 1)), "mq_sub": ("lin", (1, -1)), "mq_rshift1": ("lin", (pow(2, -1, Q),)),
            "mq_montymul": ("mono", pow(R, -1, Q), (1, 1)), "mq_montysqr": ("mono", pow(R, -1, Q), (2,)),
            "mq_div_12289": ("mono", 1, (1, Q - 2)), "mq_conv_small": ("lin", (1,))}
    names = sorted(f for f in m.funcs if f.startswith("mq_") and all(t.k == "int" for t in param_types(m.funcs[f])) and param_types(m.funcs[f]))
    for f in names:
        title = f; k = len(param_types(m.funcs[f]))
        sp = spec.get(f); rets = []; steps = 0
        lo, hi = (-(Q // 2), Q // 2) if f == "mq_conv_small" else (0, Q - 1)
        # single operands are analysed by parity, x = 2y and x = 2y+1
        for par in ((0, 1) if k == 1 else (None,)):
            _, ip = machine(); st = State()
            if par is None:
                syms = [Sym("x%d" % i, lo, hi, 0, ("x%d" % i, (0, {}))) for i in range(k)]
                forms = [(0, {y: 1}) for y in syms]
                args = [V(t.w, lo, hi, l, t.w, None, l) for l, t in zip(forms, param_types(m.funcs[f]))]
            else:
                y = Sym("y", (lo - par + 1) // 2, (hi - par) // 2); l = (par, {y: 2}); w = param_types(m.funcs[f])[0].w
                syms = [y]; forms = [l]
                args = [V(w, 2 * y.lo + par, 2 * y.hi + par, l, w, None, l)]
            rs = ip.run(m.funcs[f], args, st)
            memrules(s, ip, title); steps += ip.steps
            rets += [(st, r, ip, forms) for st, r in rs]
        s.unit(title, {"operands": "all in [%d,%d]" % (lo, hi), "return states": len(rets), "abstract steps": steps})
        for st, r, ip, forms in rets:
            a, b = st.rng(r)
            s.check("reduced", 0 <= a and b <= Q - 1, title, "the result ranges over %d..%d" % (a, b), title)
            x = st.getcq(r)
            if sp is None: continue
            want = (0, {})
            if sp[0] == "lin":
                for l, c in zip(forms, sp[1]): want = cq_add(want, cq_scale(l, c))
            else:
                want = (sp[1], {})
                for l, e in zip(forms, sp[2]):
                    c, mm = ip.cq_atom(l); y = ip.mono_form(pow(c, e, Q), tuple((z, q * e) for z, q in mm))
                    want = ip.cq_mul(want, y)
            ok = x is not None and (x[0] - want[0]) % Q == 0 and ({y: c % Q for y, c in x[1].items() if c % Q} == want[1])
            s.check("congruent", ok, title, "the result is not congruent to the specified combination of the operands (derived %s)" % (lstr(x) if x else None), title)
    return names

def param_types(f): return [t for t, _ in f.params]

def c08(rep):
    rep.rules("an accepting return implies, in exact integers, that the sum of the squares of all coefficients is at most the bound; a rejecting one that it exceeds it",
              "what verify_raw hands to the norm test is, for every input, the centred residue of hash minus product, and the decoded half itself")
    rep.trust(*TRUST)
    big = [9] if rep.tier == "quick" else list(range(3, 11))
    T = [("t_verify_raw", 9, 0)] + [("t_norm", f, l, False) for f in ("is_short", "is_short_half") for l in big]
    T += [("t_norm", f, l, True) for f in ("is_short", "is_short_half") for l in ((1, 2) if rep.tier == "quick" else (1, 2, 3))]
    T += [("t_recover", f, 2 if rep.tier == "quick" else 9, e) for f, e in (("verify_recover", False), ("verify_recover_epervier", True))]
    pool(rep, T)

def c09(rep):
    rep.rules("each helper maps reduced operands to a reduced result congruent to the specified one", "every element a transform or ring function leaves behind lies in [0,q-1]")
    rep.trust(*TRUST)
    small = (1, 2, 3, 4, 5, 6) if rep.tier == "quick" else tuple(range(1, 10))
    T = [("t_helpers",)] + [("t_ntt", "to_ntt", l, 1) for l in small + (9,)] + [("t_ntt", "to_ntt_monty", l, 65536) for l in small]
    T += [("t_public", 5), ("t_private", 5), ("t_recover", "verify_recover", 5, False), ("t_recover", "verify_recover_epervier", 5, True)]
    r = pool(rep, T)
    rep.need(len(r[0]), "modular helpers of vrfy.c", 4)

def c19(rep):
    rep.rules("the matrix derived for each transform is the evaluation at all roots of X^n+1", "each ring function's result is the specified product or quotient in Z_q[X]/(X^n+1), coefficient by coefficient")
    rep.trust(*TRUST)
    ls = (9,) if rep.tier == "quick" else (9, 10, 8, 7, 6, 5, 4, 3, 2, 1)
    T = []
    for l in ls:
        T += [("t_recover", "verify_recover", l, False), ("t_private", l), ("t_public", l), ("t_recover", "verify_recover_epervier", l, True),
              ("t_verify_raw", l, 0), ("t_invertible", "is_invertible", l), ("t_ntt", "to_ntt", l, 1)]
    T.append(("t_hint", 9))
    T += [("t_complete", f) for f in ("verify_recover", "verify_recover_epervier", "compute_public", "is_invertible")]
    pool(rep, T)
