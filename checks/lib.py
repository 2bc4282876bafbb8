"""Library-level parts: the retry loop of the lattice signer (C11) and memory safety of the library functions (C01)."""
from sa.values import *
from sa.state import *
from sa.interp import Interp, GiveUp
from sa import cbuild
from sa.report import Broken
from checks.ring import machine, func, memrules, cells, pool as _pool, holds, PFX
import checks.ring

ZMAX = 1 << 14; DBG = False

def recursive(m):
    """functions of the unit that can call themselves"""
    calls = {n: {I.extra[1] for b in f.blocks.values() for I in b.ins if I.op == "call" and I.extra[0] == "g"} for n, f in m.funcs.items() if f.blocks}
    out = set()
    for f in calls:
        seen = set(); todo = list(calls[f])
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g); todo += calls.get(g, ())
        if f in seen: out.add(f)
    return out

def t_signloop(s, fname, logn):
    n = 1 << logn; checks.ring.deep()
    m, ip = machine("sign.c", {"hm": (2, 0, Q - 1)}); ip.sign_split = True; ip.part_consts = True
    title = "%s(logn=%d)" % (fname, logn)
    st = State()
    st.mem["hm"] = Obj("hm", 2 * n, "input"); st.mem["s2"] = Obj("s2", 2 * n, "uninit"); st.mem["rng"] = Obj("rng", 208, "top")
    st.mem["tmp"] = Obj("tmp", (48 if fname == "sign_tree" else 72) * n, "uninit")
    keys = ["ek"] if fname == "sign_tree" else ["f", "g", "F", "G"]
    for k in keys: st.mem[k] = Obj(k, 8 * (logn + 8) * n if k == "ek" else n, "top")
    st.ev = (("short", 0),)
    info = {}; calls = {"short": 0}; made = [0]
    def poly(ip, st, args, ctx):
        """every polynomial reached through a pointer argument becomes an unknown one"""
        made[0] += 1
        for i, p in enumerate(a for a in args if isinstance(a, P)):
            if p.obj is None or p.obj in keys or p.obj not in st.mem: continue
            o = st.mem[p.obj]
            if o.ro or o.name in ("hm", "s2", "rng") or o.size is None: continue
            if not p.off.const(): raise Broken("%s: polynomial at an unknown place" % title)
            k = min(n, (o.size[0] - p.off.cval()) // 8)
            if o.name != "tmp": continue
            for j in range(k):
                y = Sym("poly", 0, (1 << 64) - 1, 0, ("cell", made[0], i, j))
                ip.store(st, P(p.obj, ip.add(p.off, C(64, 8 * j), st), 0), V(64, 0, (1 << 64) - 1, (0, {y: 1}), 64), 8, ctx)
        return [(st, None)]
    def scaled(ip, st, args, ctx):
        return [(st, top(64))]
    def rint(ip, st, args, ctx):
        a = args[0]; L = a.lin
        c = next(iter(L[1])).org if L is not None and not L[0] and len(L[1]) == 1 else None
        if not (isinstance(c, tuple) and c[0] == "cell"): c = None
        k = ("rint", c); y = info.get(k) if c else None
        if y is None: y = info[k] = Sym("rint", -ZMAX, ZMAX, 0, ("rint", c))
        return [(st, V(64, -ZMAX, ZMAX, (0, {y: 1}), 64, None, (0, {y: 1})))]
    def short(ip, st, args, ctx):
        calls["short"] += 1
        sq, p, lg = args
        ok = isinstance(lg, V) and lg.const() and lg.cval() == logn
        s.check("degree", ok, ip.where(ctx), "the norm test is made for another degree", title)
        sv = cells(st, p.obj, p.off.cval(), n, 2) if p.obj in st.mem and p.off.const() else [None] * n
        second = set(); msg = None
        for u, v in enumerate(sv):
            L = v.lin if v is not None else None
            y = next(iter(L[1])) if L is not None and len(L[1]) == 1 and not L[0] else None
            c = y.org[1] if y is not None and isinstance(y.org, tuple) and y.org[0] == "rint" else None
            if c is None or abs(L[1][y]) != 1: msg = msg or "coefficient %d of the vector tested is not a rounded coordinate" % u
            else: second.add(c)
        if msg is None and (len(second) != n or len({c[:3] for c in second}) != 1 or {c[3] for c in second} != set(range(n))): msg = "the vector tested is not one whole rounded polynomial"
        s.check("second-half", msg is None, ip.where(ctx), msg or "", title)
        # the norm of the first half
        first = {}; zs = [None] * n
        for x in ip.prod.values():
            o = x.org
            if o[0] != "mul" or not leq(o[1], o[2]): continue
            h = [(y, c) for y, c in o[1][1].items() if isinstance(y.org, tuple) and y.org[0] == "hm"]
            r = [(y, c) for y, c in o[1][1].items() if isinstance(y.org, tuple) and y.org[0] == "rint"]
            if len(o[1][1]) != 2 or len(h) != 1 or len(r) != 1 or o[1][0] or h[0][1] * r[0][1] != -1: continue
            at = h[0][0].org[1]
            if at[1] or not r[0][0].org[1]: continue
            first.setdefault(at[0] // 2, []).append((x, r[0][0].org[1], o[1]))
        L = {}; msg = None; polys = set()
        lin = sq.lin
        terms = dict(lin[1]) if lin is not None else {}
        flo, fhi = st.ur(sq)
        sat = flo >= 1 << 31
        used = {}
        for u in range(n):
            c = [z for z in first.get(u, ()) if terms.get(z[0]) == 1]
            if not c and not sat: msg = msg or "coefficient %d of the first half is not counted" % u
            elif c: used[u] = c[0]; polys.add(c[0][1][:3])
        if not sat and msg is None:
            S = (0, {used[u][0]: 1 for u in range(n)})
            if lin is None or not lsub_eq(lin, S, 32): msg = "the norm handed over is not the sum of the squares of the first half (%s)" % lstr(lin)
            elif len(polys) != 1 or {used[u][1][3] for u in used} != set(range(n)): msg = "the first half is not one whole rounded polynomial subtracted from the hashed point"
            elif len(second) and polys & {c[:3] for c in second}: msg = "both halves come from one polynomial"
            elif not any(st.leval(S)[1] <= b or holds(st, ladd(lconst(b), S, -1)) for b in ((1 << 32) - 1, (1 << 31) - 1, fhi)): msg = "the sum of squares may have wrapped without being saturated"
        if DBG: print(sat, flo, fhi, lstr(lin)[:300], msg, [ (u,len(x)) for u,x in first.items()])
        s.check("first-half", msg is None, ip.where(ctx), msg or "", title)
        for o in ("s2", "hm"):
            s.check("untouched", not st.mem[o].written, ip.where(ctx), "%s is written before the norm is known (it may share memory with the hashed point)" % o, title)
        out = []
        for r in (0,) if sat else (0, 1):      # C08: a norm of 2^31 or more is rejected
            t = st.fork(); t.mon["short"] = r; t.ev = (("short", r),)
            t.mon["vec"] = tuple(sv)
            t.mon["first"] = tuple(lscale(used[u][2], 1 if next(c for y, c in used[u][2][1].items() if y.org[0] == "hm") > 0 else -1) if u in used else None for u in range(n))
            out.append((t, C(32, r)))
        return out
    rec = recursive(m)
    for k in rec: ip.hooks[k] = poly
    for k in EXT: ip.hooks[PFX + k] = poly
    for k in ("prng_init",): ip.hooks[PFX + k] = lambda ip, st, args, ctx: [(st, None)]
    ip.hooks[PFX + "fpr_scaled"] = scaled; ip.hooks["fpr_rint"] = rint
    ip.hooks[PFX + "is_short_half"] = short
    a = {"s2": P("s2", C(64, 0)), "rng": P("rng", C(64, 0)), "hm": P("hm", C(64, 0)), "logn": C(32, logn), "tmp": P("tmp", C(64, 0))}
    for k in keys: a[k] = P(k, C(64, 0))
    rs = ip.run(func(m, ip, fname), [a[k] for k in ["s2", "rng"] + keys + ["hm", "logn", "tmp"]], st)
    memrules(s, ip, title)
    s.unit(title, {"abstract steps": ip.steps, "return states": len(rs), "norm tests": calls["short"], "transforms": made[0]})
    s.check("returns", bool(rs), title, "never returns", title)
    for st, _ in rs:
        s.check("short", st.mon.get("short") == 1, title, "the signer returns although the last norm test did not accept", title)
        vec = st.mon.get("vec") or [None] * n
        cs = cells(st, "s2", 0, n, 2)
        ok = all(v is not None and c is not None and v.lin is not None and c.lin is not None and lsub_eq(v.lin, c.lin, 16) for v, c in zip(vec, cs))
        fs = st.mon.get("first") or [None] * n
        ok1 = all(f is not None and c is not None and c.lin is not None and lsub_eq(f, c.lin, 16) for f, c in zip(fs, cells(st, "tmp", 0, n, 2)))
        s.check("first-half", ok1, title, "the first half left in the scratch buffer (the Epervier signer emits it) is not the vector whose norm was accepted", title)
        s.check("emitted", ok, title, "the vector returned is not the vector whose norm was accepted", title)

EXT = ["FFT", "iFFT", "poly_add", "poly_sub", "poly_neg", "poly_adj_fft", "poly_mul_fft", "poly_muladj_fft", "poly_mulselfadj_fft", "poly_mulconst",
       "poly_div_fft", "poly_invnorm2_fft", "poly_add_muladj_fft", "poly_mul_autoadj_fft", "poly_div_autoadj_fft", "poly_LDL_fft", "poly_LDLmv_fft",
       "poly_split_fft", "poly_merge_fft"]

def work(t): return checks.ring.work(t, globals())
def pool(rep, tasks): return _pool(rep, tasks, work)

def sign_loop(rep):
    pool(rep, [("t_signloop", f, l) for f in ("sign_dyn", "sign_tree") for l in (1, 3) + ((2, 4, 5) if rep.tier == "thorough" else ())])

# ------------------------------------------------------------------ C01
CAP = 1 << 40
DEC = (("modq_decode", 2, None), ("modq_decode16", 2, None), ("comp_decode", 2, None), ("comp_decode16", 2, None), ("trim_i8_decode", 1, 6), ("trim_i8_decode", 1, 8))

def t_decmem(s, name, logn, w, bits):
    """a decoder on an input of any length"""
    n = 1 << logn; m = cbuild.unit("codec.c")
    ip = Interp([m], memo=False); ip.join_facts = True
    st = State(); y = Sym("max_in", 0, CAP)
    st.mem["x"] = Obj("x", n * w, "uninit"); st.mem["in"] = Obj("in", (0, {y: 1}), "input")
    rs = ip.run(func(m, ip, name), [P("x", C(64, 0)), C(32, logn)] + ([C(32, bits)] if bits else []) + [P("in", C(64, 0)), V(64, 0, CAP, (0, {y: 1}), 64)], st)
    title = "%s(logn=%d%s)" % (name, logn, ", bits=%d" % bits if bits else "")
    memrules(s, ip, title)
    for st, r in rs:
        lo, hi = st.rng(r)
        if lo == hi == 0: continue
        L = st.ulin(r)
        s.check("memory:consumed", L is not None and st.prove(ladd((0, {y: 1}), L, -1)) or hi <= st.sbounds(y)[0], title, "reports more input consumed than there is", title)
    s.unit(title, {"instructions": sum(ip.visited.values()), "obligations": dict(ip.ob)})

def t_keccakmem(s, fn):
    m = cbuild.unit("keccak256.c"); ip = Interp([m], memo=False); ip.join_facts = True
    lay = cbuild.layout("keccak256.c", "SHA3_CTX")
    st = State(); st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.mem["out"] = Obj("out", 32, "uninit")
    o, k = lay["rest"]; rest = Sym("rest", 0, RATE - 1)
    st.w("ctx").cells[o] = (k, V(8 * k, 0, RATE - 1, (0, {rest: 1}), 8 * k))
    rs = ip.run(func(m, ip, fn), [P("ctx", C(64, 0)), P("out", C(64, 0))], st)
    memrules(s, ip, fn)
    s.unit(fn, {"instructions": sum(ip.visited.values()), "obligations": dict(ip.ob)})

RATE = 136
def mwork(t):
    mod, task = t
    import importlib
    g = importlib.import_module("checks." + mod)
    return g.work(task)

class MemOnly:
    """keeps only the memory obligations of a task"""
    def __init__(self, rep): self.rep = rep
    def check(self, rule, ok, w, m, key=None):
        if rule.startswith("memory"): self.rep.check(rule, ok, w, m, key=key)
    def unit(self, n, d): self.rep.unit(n, d)

def c01_lib(rep):
    D = 9
    T = [("lib", ("t_decmem", f, D, w, b)) for f, w, b in DEC]
    T += [("ring", t) for t in [("t_verify_raw", D, 0), ("t_recover", "verify_recover", D, False), ("t_recover", "verify_recover_epervier", D, True),
                                ("t_ntt", "to_ntt", D, 1), ("t_ntt", "to_ntt_monty", D, 65536)] + [("t_norm", f, D, False) for f in ("is_short", "is_short_half")]]
    T += [("hash", ("t_hash", f, e, D)) for f, e in (("hash_to_point_vartime", "i_shake256_extract"), ("keccak_hash_to_point_vartime", "i_keccak256_extract"))]
    T += [("hash", (t,)) for t in ("t_inject", "t_extract", "t_flip", "t_init", "t_permutation", "t_kinit")]
    for f in (0, 1):
        T += [("hash", ("t_kinject", f, x)) for x in (None, "ctx", "in")] + [("hash", ("t_kflip", f, x)) for x in (False, True)]
    T += [("hash", ("t_kextract", 1, None, 0, 0))] + [("hash", ("t_kextract", 1, None, p, 1)) for p in range(33)] + [("hash", ("t_kextract", 0, None, 0, 0)), ("hash", ("t_kextract", 0, None, 3, 1))]
    T += [("hash", ("t_kupdate",)), ("hash", ("t_kzero",)), ("lib", ("t_keccakmem", "keccak_final"))]
    _pool(MemOnly(rep), T, mwork)
