"""C07, C14, C16: the hashing layer of the C code (common.c, keccak_prng.c, shake.c).

Each function is analysed on its own for every argument value, with ghost cells next to the program's memory: they count
what was absorbed, sampled or delivered so far, and the invariant found at each loop relates them to the program's own
counters.  Every store of interest is an obligation: it must be the next element, at the next place, with the right value."""
from sa.values import *
from sa.state import *
from sa.interp import Interp, GiveUp
from sa import cbuild
from sa.llvmir import INT
from sa.report import Broken
from checks.ring import pool as _pool, func, memrules, PFX
import checks.ring

TRUST = ("clang 18 -O0 IR of the current source (front end, sroa, instsimplify, dce)",
         "abstract interpreter sa/ (intervals, linear relations between counters, residues modulo q)")
G = "$ghost"      # cells: 0 count of outputs, 8 sample pending?, 16 the sample, 24 half a sample pending?, 32 its first byte

def gget(st, i): return st.mem[G].cells[i][1]
def gset(st, i, v): st.w(G).cells[i] = (8, v)

def fresh(name, lo, hi, w=64):
    s = Sym(name, lo, hi)
    return V(w, lo, hi, (0, {s: 1}), w)

def pend(ip, st):
    """a pending sample that is known to be out of range needs no output"""
    g = st.mem.get(G)
    if g is None: return
    f = gget(st, 8)
    if f.const() and f.cval() == 1:
        s = gget(st, 16)
        L = st.ulin(s)
        if L is not None and st.prove(ladd(L, lconst(-5 * Q))):
            gset(st, 8, C(64, 0)); gset(st, 16, C(64, 0))

def t_hash(s, fn, ext, logn):
    m = cbuild.unit("common.c"); ip = Interp([m], memo=False); ip.join_facts = True
    f = func(m, ip, fn); n = 1 << logn; title = "%s logn=%d" % (fn, logn)
    st = State()
    st.mem["ctx"] = Obj("ctx", 8192, "top"); st.mem["x"] = Obj("x", 2 * n, "uninit")
    st.mem[G] = Obj(G, 40, "zero"); st.own.update(("ctx", "x", G))
    for i in (0, 8, 16, 24, 32): gset(st, i, C(64, 0))
    stat = {"extract": 0, "store": 0}
    def extract(ip, st, args, ctx):
        stat["extract"] += 1
        p, out, ln = args
        ip.oblige("stream", isinstance(p, P) and p.obj == "ctx" and p.off.const() and p.off.cval() == 0, ctx, "XOF output drawn from another context")
        if not (isinstance(ln, V) and ln.const() and ln.cval() in (1, 2)): raise Broken("%s: samples drawn in an unsupported way" % title)
        pend(ip, st)
        for i in range(ln.cval()):
            b = fresh("byte", 0, 255)
            ip.store(st, P(out.obj, ip.add(out.off, C(64, i), st), 0), ip.trunc(b, 8, st), 1, ctx)
            h = gget(st, 24)
            if not (h.const() and h.cval() in (0, 1)): raise Broken("%s: sample halves lost at a join" % title)
            if h.cval() == 0:
                pe = gget(st, 8)
                ip.oblige("sample", pe.const() and pe.cval() == 0, ctx, "the next sample is drawn although the one before is neither used nor known to be >= 61445")
                gset(st, 24, C(64, 1)); gset(st, 32, b); gset(st, 8, C(64, 0))
            else:
                w = ip.add(ip.mul(gget(st, 32), C(64, 256), st), b, st)
                gset(st, 16, w); gset(st, 8, C(64, 1)); gset(st, 24, C(64, 0)); gset(st, 32, C(64, 0))
        return [(st, C(32, 0))]
    ip.hooks[PFX + ext] = extract
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "x": return
        stat["store"] += 1
        k = gget(st, 0); pe = gget(st, 8); w = gget(st, 16)
        at = st.slin(k)
        L = L if L is not None else lconst(c) if c is not None else None
        ip.oblige("place", at is not None and L is not None and size == 2 and st.prove_eq(L, lscale(at, 2)), ctx, "output written at a place other than the next one")
        ok = pe.const() and pe.cval() == 1
        ip.oblige("sample", ok, ctx, "output written without a fresh sample")
        if ok:
            W = st.ulin(w)
            ip.oblige("reject", W is not None and st.prove(ladd(lconst(5 * Q - 1), W, -1)), ctx, "a sample >= 61445 is used")
            lo, hi = st.ur(v); rl, rh = st.trng(v)
            a = st.getcq(v); b = st.getcq(w)
            if rl < 0: a = None
            ip.oblige("reduce", lo >= 0 and hi < Q, ctx, "output not reduced below q: up to %d" % hi)
            ip.oblige("residue", a is not None and b is not None and leq(a, b), ctx, "output is not the sample modulo q")
        gset(st, 0, ip.add(k, C(64, 1), st)); gset(st, 8, C(64, 0)); gset(st, 16, C(64, 0))
    ip.on_store = on_store; ip.on_enter = pend
    rl = ("place", "sample", "reject", "reduce", "residue", "stream")
    rs = run(ip, f, [P("ctx", C(64, 0)), P("x", C(64, 0)), C(32, logn)], st, rl)
    for r in rl: s.check(r, True, title, "")
    for (k, w), msg in sorted(ip.alarms.items()):
        if k in rl: s.check(k, False, w, msg, "%s:%s" % (k, fn))
    for q, _ in rs or ():
        k = q.slin(gget(q, 0))
        s.check("count", k is not None and q.prove_eq(k, lconst(n)), fn, "returns with a number of outputs other than n=%d" % n, "count:" + fn)
    s.check("count", rs is None or bool(rs), fn, "never returns", "count:" + fn)
    if not stat["extract"] or not stat["store"]: raise Broken("%s: no samples or no outputs seen" % title)
    memrules(s, ip, title)
    s.unit(title, {"instructions": sum(ip.visited.values()), "obligations": dict(ip.ob)})

def work(t):
    return checks.ring.work(t, globals())
def pool(rep, tasks): return _pool(rep, tasks, work)

def c07(rep):
    rep.rules("every store of the output array is the next element and holds the pending two-byte sample modulo q in [0,q-1]",
              "a sample is dropped only when known to be >= 61445 and used only when known to be below", "the function returns with exactly n outputs")
    rep.trust(*TRUST)
    ls = (1, 5, 9, 10) if rep.tier == "quick" else range(1, 11)
    pool(rep, [("t_hash", fn, ext, l) for l in ls for fn, ext in (("hash_to_point_vartime", "i_shake256_extract"), ("keccak_hash_to_point_vartime", "i_keccak256_extract"))])

# ------------------------------------------------------------------ C16
RATE = 136
def permutation(m, name):
    if name in m.funcs: return name
    def reach(f, seen):
        if f in seen or f not in m.funcs: return 0
        seen.add(f); n = 0
        for b in m.funcs[f].blocks.values():
            n += len(b.ins)
            for I in b.ins:
                if I.op == "call" and I.extra[0] == "g": n += reach(I.extra[1], seen)
        return n
    c = []
    for k in (2, 1):
        c += sorted((reach(f.name, set()), f.name) for f in m.funcs.values() if f.internal and len(f.params) == k and all(t.k == "ptr" for t, n in f.params))
    if not c or c[-1][0] < 200: raise Broken("%s: the permutation is not recognisable" % m.source)
    return c[-1][1]

def run(ip, f, args, st, rl):
    """analyse; obligations already refuted stand even when no invariant is found afterwards"""
    try: return ip.run(f, args, st)
    except GiveUp:
        if any(k in rl for k, w in ip.alarms): return None
        raise

def where_(L, c): return L if L is not None else lconst(c) if c is not None else (0, {Sym("place", 0, (1 << 64) - 1): 1})
def div8(l):
    if l[0] % 8 or any(c % 8 for c in l[1].values()): return None
    return (l[0] // 8, {s: c // 8 for s, c in l[1].items()})

def absorbed(ip, st, obj, at, size, v, beyond=None):
    """a store that xors something into memory: [(source atom, destination byte)] or a message"""
    t = ip.tmof(v)
    if t is None or t[0] < 8 * size: return "the value stored in the state is not an xor of the state and the data"
    old = 0; out = []
    for a in t[1]:
        if a[0] == "m" and a[1] == obj and not (beyond is not None and not a[2][1] and a[2][0] >= beyond):
            if not (leq(a[2], at) and a[3] == size and a[4] == ip.version(st, obj) and a[5] == (0, {})): return "state word replaced by another one"
            old += 1; continue
        n = div8(a[5])
        if n is None: return "data xored in at a bit position that is not a byte"
        out.append((a, ladd(at, n)))
    if old != 1: return "the previous content of the state is lost"
    return out

def start(title):
    m = cbuild.unit("shake.c"); ip = Interp([m], memo=False); ip.join_facts = True; ip.terms = True
    lay = cbuild.layout("shake.c", "inner_shake256_context")
    if "A" not in lay or "dptr" not in lay or lay["A"][1] != 200: raise Broken("shake.c: context fields A and dptr not found")
    st = State()
    st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.mem[G] = Obj(G, 40, "zero"); st.own.update(("ctx", G))
    return m, ip, st, lay

def setpos(st, lay, lo, hi):
    o, n = lay["dptr"]; s = Sym("dptr", lo, hi); w = 8 * n
    st.w("ctx").cells[o] = (n, V(w, lo, hi, (0, {s: 1}), w) if lo != hi else C(w, lo))
    return V(64, lo, hi, (0, {s: 1}), 64) if lo != hi else C(64, lo)

def getpos(ip, st, lay):
    o, n = lay["dptr"]; c = st.mem["ctx"].cells.get(o)
    return st.ulin(c[1]) if c is not None and c[0] == n and isinstance(c[1], V) else None

def posrange(st, lay):
    o, n = lay["dptr"]; c = st.mem["ctx"].cells.get(o)
    return st.trng(c[1]) if c is not None and c[0] == n and isinstance(c[1], V) else (-1, 1 << 64)

def inlen(st, name, mx=1 << 40, const=True):
    s = Sym(name + "_len", 0, mx); n = V(64, 0, mx, (0, {s: 1}), 64)
    return n

def permuting(ip, name, full, gpos, msg):
    def h(ip, st, args, ctx):
        p = args[0]
        ip.oblige("permute", isinstance(p, P) and p.obj == "ctx" and p.off.const() and p.off.cval() == 0, ctx, "permutation applied to something other than the state")
        k = st.ulin(gget(st, gpos))
        ip.oblige("permute", k is not None and st.prove_eq(k, lconst(full)), ctx, msg)
        gset(st, gpos, C(64, 0)); ip.version(st, "ctx", True)
        return [(st, None)]
    ip.hooks[name] = h

def finish(s, ip, rl, title, fn):
    for r in rl: s.check(r, True, title, "")
    for (k, w), msg in sorted(ip.alarms.items()):
        if k in rl: s.check(k, False, w, msg, "%s:%s" % (k, fn))
    memrules(s, ip, title)
    s.unit(title, {"instructions": sum(ip.visited.values()), "obligations": dict(ip.ob)})

def t_inject(s):
    m, ip, st, lay = start("inject"); fn = "i_shake256_inject"
    pos = setpos(st, lay, 0, RATE - 1)
    n = inlen(st, "in"); nl = st.ulin(n)
    st.mem["in"] = Obj("in", nl, "input", ro=True)
    gset(st, 0, C(64, 0)); gset(st, 8, pos); gset(st, 16, C(64, 0))
    seen = [0]
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "ctx": return
        at = where_(L, c)
        if at[0] == lay["dptr"][0] and not at[1] and size == lay["dptr"][1]: return
        seen[0] += 1
        if not isinstance(size, int): ip.oblige("absorb", False, ctx, "bulk write to the state"); return
        r = absorbed(ip, st, "ctx", ladd(at, lconst(-lay["A"][0])), size, v) if lay["A"][0] == 0 else "state not at the start of the context"
        ip.oblige("absorb", not isinstance(r, str), ctx, r)
        ip.version(st, "ctx", True)
        if isinstance(r, str): return
        r.sort(key=lambda x: (x[1][0], x[0][2][0] if x[0][2] else 0))
        for a, d in r:
            k = st.ulin(gget(st, 0)); p = st.ulin(gget(st, 8))
            if a[0] == "c": ip.oblige("absorb", False, ctx, "a constant is xored into the state while absorbing"); continue
            ip.oblige("absorb", a[1] == "in" and k is not None and st.prove_eq(a[2], k), ctx, "absorbed byte is not the next input byte")
            ip.oblige("position", p is not None and st.prove_eq(d, p), ctx, "input byte xored in at a place other than the next position")
            ip.oblige("position", p is not None and st.prove(ladd(lconst(RATE - a[3]), p, -1)), ctx, "input byte absorbed beyond the rate")
            gset(st, 0, ip.add(gget(st, 0), C(64, a[3]), st)); gset(st, 8, ip.add(gget(st, 8), C(64, a[3]), st))
    ip.on_store = on_store
    permuting(ip, permutation(m, "process_block"), RATE, 8, "permutation before the rate is full")
    rl = ("absorb", "position", "permute")
    rs = run(ip, func(m, ip, fn), [P("ctx", C(64, 0)), P("in", C(64, 0)), n], st, rl)
    s.check("permute", ip.ob["permute"] > 0 or rs is None, fn, "the block is never permuted", "never:" + fn)
    for q, _ in rs or ():
        k = q.ulin(gget(q, 0)); p = q.ulin(gget(q, 8)); d = getpos(ip, q, lay)
        s.check("count", k is not None and q.prove_eq(k, nl), fn, "returns without having absorbed exactly the given bytes", "count:" + fn)
        s.check("position", p is not None and d is not None and q.prove_eq(p, d), fn, "position stored in the context is not the number of bytes in the block", "stored:" + fn)
        s.check("position", posrange(q, lay)[0] >= 0 and posrange(q, lay)[1] < RATE, fn, "position left at or beyond the rate (block full without permutation)", "range:" + fn)
    s.check("count", rs is None or bool(rs) and seen[0] > 0, fn, "nothing absorbed", "some:" + fn)
    finish(s, ip, rl, "i_shake256_inject", fn)

def t_extract(s):
    m, ip, st, lay = start("extract"); fn = "i_shake256_extract"
    pos = setpos(st, lay, 0, RATE)
    n = inlen(st, "out"); nl = st.ulin(n)
    st.mem["out"] = Obj("out", nl, "uninit"); st.own.add("out")
    gset(st, 0, C(64, 0)); gset(st, 8, pos)
    seen = [0]
    def on_store(ip, st, o, c, L, size, v, ctx):
        at = where_(L, c)
        if o.name == "ctx":
            ip.oblige("state", at[0] == lay["dptr"][0] and not at[1] and size == lay["dptr"][1], ctx, "extraction changes the state other than by the permutation")
        if o.name != "out": return
        seen[0] += 1
        k = st.ulin(gget(st, 0)); p = st.ulin(gget(st, 8))
        ip.oblige("deliver", k is not None and st.prove_eq(at, k), ctx, "output byte written at a place other than the next one")
        if isinstance(v, tuple) and v and v[0] == "copy":
            src = v[3]; sz = size; ok = v[2] == "ctx" and src is not None; V_ = None
        else:
            sz = lconst(size); t = ip.tmof(v) if isinstance(v, V) else None
            ok = t is not None and t[0] >= 8 * size and len(t[1]) == 1 and t[1][0][0] == "m" and t[1][0][1] == "ctx" and t[1][0][4] == ip.version(st, "ctx")
            if ok:
                n8 = div8(t[1][0][5]); ok = n8 is not None
                if ok: src = ladd(t[1][0][2], n8, -1)
        ip.oblige("deliver", ok, ctx, "output byte is not a byte of the current state")
        if ok:
            ip.oblige("deliver", p is not None and st.prove_eq(src, p), ctx, "output byte is not the next byte of the block")
            ip.oblige("position", p is not None and st.prove(ladd(ladd(lconst(RATE), sz, -1), p, -1)), ctx, "output taken beyond the rate")
        l = st.leval(sz); x = V(64, l[0], l[1], sz, 64) if sz[1] else C(64, sz[0])
        gset(st, 0, ip.add(gget(st, 0), x, st)); gset(st, 8, ip.add(gget(st, 8), x, st))
    ip.on_store = on_store
    permuting(ip, permutation(m, "process_block"), RATE, 8, "permutation before the block is used up")
    rl = ("deliver", "state", "position", "permute")
    rs = run(ip, func(m, ip, fn), [P("ctx", C(64, 0)), P("out", C(64, 0)), n], st, rl)
    s.check("permute", ip.ob["permute"] > 0 or rs is None, fn, "the block is never permuted", "never:" + fn)
    for q, _ in rs or ():
        k = q.ulin(gget(q, 0)); p = q.ulin(gget(q, 8)); d = getpos(ip, q, lay)
        s.check("count", k is not None and q.prove_eq(k, nl), fn, "returns without having delivered exactly the requested bytes", "count:" + fn)
        s.check("position", p is not None and d is not None and q.prove_eq(p, d), fn, "position stored in the context is not the number of bytes delivered", "stored:" + fn)
        s.check("position", posrange(q, lay)[0] >= 0 and posrange(q, lay)[1] <= RATE, fn, "position beyond the rate", "range:" + fn)
    s.check("count", rs is None or bool(rs) and seen[0] > 0, fn, "nothing delivered", "some:" + fn)
    finish(s, ip, rl, "i_shake256_extract", fn)

def t_flip(s):
    m, ip, st, lay = start("flip"); fn = "i_shake256_flip"; ip.paths = True
    pos = setpos(st, lay, 0, RATE - 1); p = st.ulin(pos)
    st.mon["xor"] = ()
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "ctx": return
        at = where_(L, c)
        if at[0] == lay["dptr"][0] and not at[1] and size == lay["dptr"][1]: return
        r = absorbed(ip, st, "ctx", at, size, v) if isinstance(size, int) else "bulk write to the state"
        ip.oblige("padding", not isinstance(r, str), ctx, r)
        ip.version(st, "ctx", True)
        if isinstance(r, str): return
        for a, d in r:
            if a[0] != "c": ip.oblige("padding", False, ctx, "something other than padding is xored into the state"); continue
            x = a[4]; i = 0
            while x:
                if x & 255: st.mon["xor"] = st.mon["xor"] + ((ladd(d, lconst(i)), x & 255),)
                x >>= 8; i += 1
    ip.on_store = on_store
    f = func(m, ip, fn)
    for n, b in m.funcs.items():
        if n == permutation(m, "process_block"):
            def h(ip, st, args, ctx):
                ip.oblige("padding", False, ctx, "permutation applied while finalising"); return [(st, None)]
            ip.hooks[n] = h
    rs = ip.run(f, [P("ctx", C(64, 0))], st)
    for q, _ in rs:
        ev = list(q.mon.get("xor") or ())
        want = [(p, 0x1F), (lconst(RATE - 1), 0x80)]
        if q.prove_eq(p, lconst(RATE - 1)):
            x = 0
            ok = all(q.prove_eq(d, p) for d, _ in ev)
            for _, b in ev: x ^= b
            ok = ok and x == 0x9F
        else:
            ok = len(ev) == 2
            for d, b in ev:
                for w in want:
                    if b == w[1] and q.prove_eq(d, w[0]): want.remove(w); break
            ok = ok and not want
        s.check("padding", ok, fn, "finalising does not xor exactly 0x1F at the position and 0x80 at byte 135: %s" % [(lstr(d), hex(b)) for d, b in ev], "bits:" + fn)
        d = getpos(ip, q, lay)
        s.check("position", d == (RATE, {}), fn, "finalising does not mark the block as used up", "pos:" + fn)
    s.check("padding", bool(rs), fn, "never returns", "some:" + fn)
    finish(s, ip, ("padding",), "i_shake256_flip", fn)

def t_init(s):
    m, ip, st, lay = start("init"); fn = "i_shake256_init"
    rs = ip.run(func(m, ip, fn), [P("ctx", C(64, 0))], st)
    for q, _ in rs:
        z = all(ip.load_const(q, q.mem["ctx"], i, 1, 8, False, (m.funcs[PFX + fn], None)) is C(8, 0) for i in range(200))
        s.check("zero", z, fn, "initial state is not all zero", "zero:" + fn)
        s.check("position", getpos(ip, q, lay) == (0, {}), fn, "initial position is not zero", "pos:" + fn)
    finish(s, ip, (), "i_shake256_init", fn)

def t_permutation(s):
    m, ip, st, lay = start("permutation"); ip.terms = False
    n = permutation(m, "process_block")
    st.mem["A"] = Obj("A", 200, "top")
    ip.run(m.funcs[n], [P("A", C(64, 0))], st)
    finish(s, ip, (), n, n)

def c16(rep):
    rep.rules("each xor into the state keeps the old content and adds the next input byte at the next position, below the rate; the permutation is applied exactly when the rate is full",
              "flip adds 0x1F at the position and 0x80 at byte 135 and marks the block as used up", "each output byte is the next byte of the block; the permutation is applied exactly when the block is used up")
    rep.trust(*TRUST)
    pool(rep, [("t_inject",), ("t_extract",), ("t_flip",), ("t_init",), ("t_permutation",)])

def t_kupdate(s):
    """keccak_update: every byte of the message is absorbed once, in order, through the block buffer or directly"""
    m = cbuild.unit("keccak256.c"); ip = Interp([m], memo=False); ip.join_facts = True; ip.terms = True; ip.pivot_big = True; ip.part_edges = True; fn = "keccak_update"
    lay = cbuild.layout("keccak256.c", "SHA3_CTX")
    for k in ("hash", "message", "rest"):
        if k not in lay: raise Broken("keccak256.c: no field %s" % k)
    ho, mo = lay["hash"][0], lay["message"][0]; ro, rn = lay["rest"]
    st = State(); st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.mem[G] = Obj(G, 40, "zero"); st.own.update(("ctx", G))
    rest = Sym("rest", 0, RATE - 1)
    st.w("ctx").cells[ro] = (rn, V(8 * rn, 0, RATE - 1, (0, {rest: 1}), 8 * rn))
    y = Sym("size", 0, 65535); nl = (0, {y: 1}); total = (0, {y: 1, rest: 1})
    st.mem["in"] = Obj("in", nl, "input", ro=True)
    gset(st, 0, C(64, 0)); gset(st, 8, V(64, 0, RATE - 1, (0, {rest: 1}), 64)); gset(st, 16, C(64, 0)); gset(st, 24, C(64, 0)); gset(st, 32, C(64, 0))
    def take(st, n): gset(st, 0, ip.add(gget(st, 0), V(64, *st.leval(n), n, 64) if n[1] else C(64, n[0]), st))
    def fill(ip, st, at, n, src, sL, ctx):
        k = st.ulin(gget(st, 0)); p = st.ulin(gget(st, 8))
        ip.oblige("absorb", src == "in" and sL is not None and k is not None and st.prove_eq(sL, k), ctx, "bytes kept in the block buffer are not the next input bytes")
        ip.oblige("position", p is not None and st.prove_eq(at, p), ctx, "input kept at a place other than the next free one of the block buffer")
        ip.oblige("position", p is not None and st.prove(ladd(lconst(RATE), ladd(p, n), -1)), ctx, "input kept beyond the block")
        take(st, n); gset(st, 8, ip.add(gget(st, 8), V(64, *st.leval(n), n, 64) if n[1] else C(64, n[0]), st))
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "ctx": return
        at = where_(L, c)
        if at[0] == ro and not at[1] and size == rn:
            d = st.ulin(v) if isinstance(v, V) else None; st.mon["rest"] = 0
            for z, cf in d[1].items() if d is not None else ():
                if isinstance(z.org, tuple) and z.org[0] == "quot" and z.org[2] == RATE and leq(d, ladd(z.org[1], (0, {z: 1}), -RATE)) and leq(z.org[1], total): st.mon["rest"] = 1
            return
        if at[1] or at[0] >= mo:
            if isinstance(v, tuple) and v[0] == "copy": fill(ip, st, ladd(at, lconst(-mo)), size, v[2], v[3] if v[3] is not None else None, ctx)
            else:
                t = ip.tmof(v)
                if size == 1 and t is not None and len(t[1]) == 1 and t[1][0][0] == "m" and t[1][0][5] == (0, {}): fill(ip, st, ladd(at, lconst(-mo)), lconst(1), t[1][0][1], t[1][0][2], ctx)
                else: ip.oblige("absorb", False, ctx, "something else than input is written to the block buffer")
            ip.version(st, "ctx", True)
            return
        r = absorbed(ip, st, "ctx", at, size, v, mo)
        ip.oblige("absorb", not isinstance(r, str), ctx, r)
        ip.version(st, "ctx", True)
        if isinstance(r, str): return
        w = gget(st, 16).cval() if gget(st, 16).const() else -1; mode = gget(st, 24).cval() if gget(st, 24).const() else -1
        k = st.ulin(gget(st, 0)); p = st.ulin(gget(st, 8))
        for a, d in r:
            ok = a[0] == "m" and a[3] == 8 and leq(d, lconst(ho + w))
            if ok and a[1] == "ctx": ok = leq(a[2], lconst(mo + w)) and p is not None and st.prove_eq(p, lconst(RATE)) and mode in (0, 1); new = 1
            elif ok: ok = a[1] == "in" and k is not None and st.prove_eq(a[2], k) and p is not None and (mode == 2 or st.prove_eq(p, lconst(0))) and mode in (0, 2); new = 2
            ip.oblige("absorb", ok, ctx, "the word absorbed is not the next one of the block")
            if not ok: return
            if new == 2: take(st, lconst(8))
            gset(st, 16, C(64, w + 8)); gset(st, 24, C(64, new))
    ip.on_store = on_store
    def perm(ip, st, args, ctx):
        p = args[0]
        ip.oblige("permute", isinstance(p, P) and p.obj == "ctx" and p.off.const() and p.off.cval() == ho, ctx, "permutation applied to something other than the state")
        ip.oblige("permute", gget(st, 16).const() and gget(st, 16).cval() == RATE, ctx, "the state is permuted before a whole block is absorbed")
        if gget(st, 24).const() and gget(st, 24).cval() == 1: gset(st, 8, C(64, 0))
        gset(st, 32, ip.add(gget(st, 32), C(64, RATE), st))
        gset(st, 16, C(64, 0)); gset(st, 24, C(64, 0)); ip.version(st, "ctx", True)
        return [(st, None)]
    ip.hooks[permutation(m, "sha3_permutation")] = perm
    rl = ("absorb", "position", "permute")
    def on_ret(ip, f, q, r):
        if f.name != fn: return
        k = q.ulin(gget(q, 0)); p = q.ulin(gget(q, 8)); c = q.mem["ctx"].cells.get(ro)
        d = q.ulin(c[1]) if c is not None and c[0] == rn else None
        s.check("count", k is not None and q.prove_eq(k, nl), fn, "returns without having absorbed exactly the given bytes", "count:" + fn)
        # p = total - 136 k and d = total mod 136, p within the block: equal
        ok = p is not None and (q.mon.get("rest") == 1 and q.prove_eq(ladd(p, q.ulin(gget(q, 32)) or (1 << 70, {})), total) and q.prove(p) and q.prove(ladd(lconst(RATE - 1), p, -1))
                                or d is not None and q.prove_eq(p, d))
        s.check("position", ok, fn, "fill level stored in the context is not the number of bytes kept", "stored:" + fn)
        s.check("position", p is not None and q.prove(ladd(lconst(RATE - 1), p, -1)), fn, "a full block is left unprocessed", "range:" + fn)
    ip.on_ret = on_ret
    rs = run(ip, func(m, ip, fn), [P("ctx", C(64, 0)), P("in", C(64, 0)), V(16, 0, 65535, nl, 16)], st, rl)
    s.check("permute", ip.ob["permute"] > 0 or rs is None, fn, "the block is never permuted", "never:" + fn)
    s.check("count", rs is None or bool(rs), fn, "nothing absorbed", "some:" + fn)
    finish(s, ip, rl, fn, fn)

def t_kfinal(s, rests):
    """keccak_final with each fill level: 0x01 after the content, zeros, 0x80 in the last byte; one permutation; 32 bytes of state"""
    m = cbuild.unit("keccak256.c"); fn = "keccak_final"; perm_ = permutation(m, "sha3_permutation")
    lay = cbuild.layout("keccak256.c", "SHA3_CTX")
    for k in ("hash", "message", "rest"):
        if k not in lay: raise Broken("keccak256.c: no field %s" % k)
    ho, mo = lay["hash"][0], lay["message"][0]; ro, rn = lay["rest"]
    for rest in rests:
        ip = Interp([m], memo=False, track_bits=True)
        st = State(); st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.mem["out"] = Obj("out", 32, "uninit"); st.own.update(("ctx", "out"))
        c = st.w("ctx").cells; c[ro] = (rn, C(8 * rn, rest))
        msg = [V(8, 0, 255, (0, {x: 1}), 8) for x in (Sym("m%d" % i, 0, 255) for i in range(RATE))]
        for i in range(rest): c[mo + i] = (1, msg[i])
        hs = [Sym("h%d" % i, 0, (1 << 64) - 1) for i in range(25)]
        for i in range(25): c[ho + 8 * i] = (8, V(64, 0, (1 << 64) - 1, (0, {hs[i]: 1}), 64))
        seen = {"first": None, "words": [], "perm": 0}
        def content(st):
            o = st.mem["ctx"]
            for i in range(RATE):
                x = o.cells.get(mo + i)
                want = (0x81 if i == RATE - 1 else 1) if i == rest else 0x80 if i == RATE - 1 else 0
                if i < rest:
                    if x is None or x[0] != 1 or x[1].lin is None or not leq(x[1].lin, msg[i].lin): return "byte %d of the content is changed" % i
                    continue
                v = ip.load_const(st, o, mo + i, 1, 8, False, (f, None)); lo, hi = st.rng(v)
                if not (lo == hi and lo % 256 == want): return "padding byte %d is not 0x%02x" % (i, want)
            return None
        def on_store(ip, st, o, cc, L, size, v, ctx):
            if o.name != "ctx" or cc is None or not ho <= cc < ho + 200: return
            if seen["first"] is None: seen["first"] = content(st) or ""
            seen["words"].append((cc - ho, size))
        ip.on_store = on_store
        outs = [Sym("p%d" % i, 0, (1 << 64) - 1) for i in range(25)]
        def perm(ip, st, args, ctx):
            p = args[0]; seen["perm"] += 1
            ip.oblige("permute", isinstance(p, P) and p.obj == "ctx" and p.off.const() and p.off.cval() == ho, ctx, "permutation applied to something other than the state")
            ip.oblige("permute", seen["words"] == [(8 * i, 8) for i in range(RATE // 8)], ctx, "the state is permuted before exactly one block is absorbed")
            for i in range(25): st.w("ctx").cells[ho + 8 * i] = (8, V(64, 0, (1 << 64) - 1, None, None, tuple((outs[i], j) for j in range(64))))
            return [(st, None)]
        ip.hooks[perm_] = perm
        f = func(m, ip, fn)
        rs = ip.run(f, [P("ctx", C(64, 0)), P("out", C(64, 0))], st)
        title = "%s, %d bytes pending" % (fn, rest)
        for (k, w), mm in sorted(ip.alarms.items()):
            if k == "permute": s.check(k, False, w, mm, "%s:%s" % (k, fn))
        s.check("padding", seen["first"] == "", title, seen["first"] or "nothing is absorbed", "pad:" + fn)
        s.check("permute", seen["perm"] == 1, title, "%d permutations" % seen["perm"], "perm:" + fn)
        memrules(s, ip, fn)
        for q, _ in rs:
            msgs = None
            o = q.mem["out"]
            for i in range(32):
                x = ip.load_const(q, o, i, 1, 8, False, (f, None))
                if ip.bits(x, q) != tuple((outs[i // 8], 8 * (i % 8) + j) for j in range(8)): msgs = "byte %d of the digest is not the state's" % i; break
            s.check("digest", msgs is None, title, msgs or "", "digest:" + fn)
        s.check("digest", bool(rs), title, "never returns", "ret:" + fn)
    s.unit("%s %d..%d" % (fn, rests[0], rests[-1]), {"fill levels": len(rests)})

def t_kzero(s):
    m = cbuild.unit("keccak256.c"); fn = "keccak_init"; ip = Interp([m], memo=False)
    lay = cbuild.layout("keccak256.c", "SHA3_CTX"); st = State(); st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.own.add("ctx")
    f = func(m, ip, fn); rs = ip.run(f, [P("ctx", C(64, 0))], st)
    for q, _ in rs:
        bad = [i for i in range(200) if q.rng(ip.load_const(q, q.mem["ctx"], lay["hash"][0] + i, 1, 8, False, (f, None))) != (0, 0)]
        v = ip.load_const(q, q.mem["ctx"], lay["rest"][0], lay["rest"][1], 8 * lay["rest"][1], False, (f, None))
        s.check("init", not bad, fn, "state byte %s is not zero after initialisation" % (bad[0] if bad else ""), fn)
        s.check("init", q.rng(v) == (0, 0), fn, "the fill level is not zero after initialisation", fn + ":rest")
    s.check("init", bool(rs), fn, "never returns", fn + ":ret"); memrules(s, ip, fn)
    s.unit(fn, {"instructions": sum(ip.visited.values())})

def c20(rep):
    rep.rules("every byte kept in the block buffer or xored into the state is the next input byte at the next place; the permutation is applied exactly to whole blocks; the stored fill level is the number of pending bytes",
              "at each of the 136 fill levels the padding is 0x01, zeros, 0x80, one permutation follows and the digest is the first 32 bytes of the state")
    rep.trust(*TRUST)
    pool(rep, [("t_kupdate",), ("t_kzero",)] + [("t_kfinal", list(range(a, min(a + 17, RATE)))) for a in range(0, RATE, 17)])

# ------------------------------------------------------------------ C14
KB = 32           # bytes per block
NEED = ("buffer", "buffer_len", "state", "counter", "finalized", "out_buffer", "out_buffer_pos", "out_buffer_len")

def kstart():
    m = cbuild.unit("keccak_prng.c"); ip = Interp([m], memo=False); ip.join_facts = True; ip.terms = True; ip.part_edges = True; ip.pivot_big = True
    lay = cbuild.layout("keccak_prng.c", "inner_keccak256_prng_ctx")
    for k in NEED:
        if k not in lay: raise Broken("keccak_prng.c: context field %s not found" % k)
    st = State()
    st.mem["ctx"] = Obj("ctx", lay[""][1], "top"); st.mem[G] = Obj(G, 48, "zero"); st.own.update(("ctx", G))
    for i in range(0, 48, 8): gset(st, i, C(64, 0))
    return m, ip, st, lay

def fset(st, lay, k, v):
    o, n = lay[k]; w = 8 * n
    if isinstance(v, int): v = C(w, v)
    st.w("ctx").cells[o] = (n, v); return v
def fget(ip, st, lay, k):
    o, n = lay[k]; c = st.mem["ctx"].cells.get(o)
    return c[1] if c is not None and c[0] == n and isinstance(c[1], V) else None
def flin(ip, st, lay, k):
    v = fget(ip, st, lay, k); return st.ulin(v) if v is not None else None
def field(lay, at, size):
    """field a store at a known place goes to, None if it may touch several"""
    for k, (o, n) in lay.items():
        if k and not at[1] and o <= at[0] and isinstance(size, int) and at[0] + size <= o + n: return k
    return None
def same(st, a, b): return a is not None and b is not None and st.prove_eq(a, b)

def ret0(q, r):
    """(can be zero, can be nonzero)"""
    lo, hi = q.trng(r)
    return lo <= 0 <= hi, not (lo == hi == 0)

def kargs(null):
    return P("ctx", C(64, 0)) if null != "ctx" else NULL

def t_kinject(s, fin, null):
    m, ip, st, lay = kstart(); fn = "i_keccak256_inject"; title = "%s finalized=%d%s" % (fn, fin, " %s=NULL" % null if null else "")
    cap = lay["buffer"][1]; base = lay["buffer"][0]
    sB = Sym("buffered", 0, cap); B = fset(st, lay, "buffer_len", V(64, 0, cap, (0, {sB: 1}), 64)); bl = st.ulin(B)
    fset(st, lay, "finalized", fin)
    n = inlen(st, "in"); nl = st.ulin(n)
    st.mem["in"] = Obj("in", nl, "input", ro=True)
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "ctx": return
        at = where_(L, c); k = field(lay, at, size)
        ip.oblige("refuse", fin == 0, ctx, "a finalised context is changed")
        if k == "buffer_len": gset(st, 8, C(64, 1)); return
        sz = size if isinstance(size, tuple) else lconst(size)
        g = st.ulin(gget(st, 0))
        ip.oblige("absorb", g is not None and st.prove_eq(at, ladd(ladd(lconst(base), bl), g)) and st.prove(ladd(lconst(base + cap), ladd(at, sz), -1)), ctx,
                  "input stored at a place other than the next free byte of the buffer")
        if isinstance(v, tuple) and v[0] == "copy": ok = v[2] == "in" and same(st, v[3], g)
        else:
            t = ip.tmof(v) if isinstance(v, V) else None
            ok = t is not None and t[0] >= 8 * size and len(t[1]) == 1 and t[1][0][0] == "m" and t[1][0][1] == "in" and t[1][0][5] == (0, {}) and same(st, t[1][0][2], g)
        ip.oblige("absorb", ok, ctx, "what is stored in the buffer is not the next input byte")
        l = st.leval(sz); x = V(64, l[0], l[1], sz, 64) if sz[1] else C(64, sz[0])
        gset(st, 0, ip.add(gget(st, 0), x, st))
    ip.on_store = on_store
    rl = ("refuse", "absorb")
    rs = run(ip, func(m, ip, fn), [kargs(null), P("in", C(64, 0)) if null != "in" else NULL, n], st, rl)
    for q, r in rs or ():
        z, nz = ret0(q, r); g = q.ulin(gget(q, 0)); b = flin(ip, q, lay, "buffer_len")
        s.check("result", not (z and nz), fn, "success and failure are not told apart", "amb:" + title)
        if z:
            s.check("refuse", fin == 0 and not null, fn, "reports success for a finalised or missing context or input", "ok:" + title)
            if fin == 0 and not null:
                s.check("absorb", same(q, g, nl), fn, "reports success without absorbing exactly the given bytes", "count:" + fn)
                s.check("absorb", same(q, b, ladd(bl, nl)), fn, "number of buffered bytes not advanced by the bytes absorbed", "len:" + fn)
        if nz:
            s.check("refuse", same(q, g, lconst(0)) and same(q, b, bl), fn, "absorbs although it reports an error", "eff:" + title)
            if not fin and not null:
                s.check("absorb", q.prove(ladd(ladd(bl, nl), lconst(-cap - 1))), fn, "refuses bytes that fit the buffer", "fit:" + fn)
    finish(s, ip, rl, title, fn)

def khash(ip, st, lay, on_final):
    """contracts of keccak_init/update/final: the content hashed is kept with the state (one hash context at a time)"""
    def who(p):
        if not (isinstance(p, P) and p.off.const()): raise Broken("hash context not recognisable")
        return (p.obj, p.off.cval())
    def init(ip, st, args, ctx):
        st.mon["hash"] = (who(args[0]), ()); return [(st, None)]
    def update(ip, st, args, ctx):
        h = st.mon.get("hash"); ok = h is not None and h[0] == who(args[0])
        ip.oblige("content", ok, ctx, "hash context used without initialisation")
        if not ok: return [(st, None)]
        p, n = args[1], args[2]; ip.lin(n)
        nl = st.ulin(n)
        ip.oblige("content", nl is not None, ctx, "length of the hashed data is not the one of the data")
        if nl is None: st.mon["hash"] = (h[0], h[1] + (("range", None, None, None),)); return [(st, None)]
        o, c, L = ip.access(st, p, nl, ctx, False)
        if nl[1]: st.mon["hash"] = (h[0], h[1] + (("range", p.obj, where_(L, c), nl),))
        else:
            if nl[0] > 4096: raise Broken("long constant update")
            bs = tuple(ip.load(st, P(p.obj, ip.add(p.off, C(64, i), st), 0), INT(8), ctx) for i in range(nl[0])) if c is not None else (("range", p.obj, where_(L, c), nl),)
            st.mon["hash"] = (h[0], h[1] + bs)
        return [(st, None)]
    def final(ip, st, args, ctx):
        h = st.mon.get("hash"); ok = h is not None and h[0] == who(args[0])
        ip.oblige("content", ok, ctx, "hash context finalised without initialisation or twice")
        on_final(ip, st, args[1], h[1] if ok else (), ctx)
        st.mon["hash"] = None
        return [(st, None)]
    ip.hooks["keccak_init"] = init; ip.hooks["keccak_update"] = update; ip.hooks["keccak_final"] = final


def t_kflip(s, fin, null):
    m, ip, st, lay = kstart(); fn = "i_keccak256_flip"; title = "%s finalized=%d%s" % (fn, fin, " ctx=NULL" if null else "")
    cap = lay["buffer"][1]; sB = Sym("buffered", 0, cap); B = fset(st, lay, "buffer_len", V(64, 0, cap, (0, {sB: 1}), 64)); bl = st.ulin(B)
    K = fset(st, lay, "counter", fresh("counter", 0, 1 << 62)); kl = st.ulin(K)
    fset(st, lay, "finalized", fin)
    fset(st, lay, "out_buffer_pos", fresh("pos", 0, KB)); fset(st, lay, "out_buffer_len", fresh("len", 0, KB))
    def on_final(ip, st, dst, content, ctx):
        at = ("range", "ctx", lconst(lay["buffer"][0]), bl)
        k = lconst(0); ok = True
        for x in content:
            if isinstance(x, tuple) and x[1] == "ctx" and st.prove_eq(x[2], ladd(lconst(lay["buffer"][0]), k)): k = ladd(k, x[3])
            else: ok = False
        ip.oblige("content", ok and st.prove_eq(k, bl), ctx, "what is hashed is not exactly the absorbed bytes")
        st.mon["out"] = (dst.obj, dst.off.cval() if dst.off.const() else None)
        for i in range(KB): ip.store(st, P(dst.obj, ip.add(dst.off, C(64, i), st), 0), V(8, 0, 255), 1, ctx)
        st.mon["at"] = (dst.obj, dst.off.cval() if dst.off.const() else None)
    def on_store(ip, st, o, c, L, size, v, ctx):
        if o.name != "ctx":
            if st.mon.get("at") and o.name == st.mon["at"][0]: st.mon["at"] = None
            return
        at = where_(L, c); k = field(lay, at, size if isinstance(size, int) else size[0] if not size[1] else None)
        ip.oblige("refuse", fin == 0, ctx, "a finalised context is changed")
        if isinstance(v, tuple) and v[0] == "copy" and st.mon.get("at") and (v[2], where_(v[3], 0)[0]) == st.mon["at"] and k == "state" and size == lconst(KB):
            st.mon["at"] = (o.name, at[0])
        ip.oblige("flip", k in ("state", "finalized", "out_buffer", "out_buffer_pos", "out_buffer_len") or (k is not None and "hash" in st.mon and st.mon["hash"] is None and k in ("buffer", "buffer_len", "counter")), ctx,
                  "finalising changes the absorbed bytes")
    ip.on_store = on_store; khash(ip, st, lay, on_final)
    rl = ("refuse", "flip", "content")
    rs = run(ip, func(m, ip, fn), [kargs("ctx" if null else None)], st, rl)
    for q, r in rs or ():
        z, nz = ret0(q, r); f = flin(ip, q, lay, "finalized")
        s.check("result", not (z and nz), fn, "success and failure are not told apart", "amb:" + title)
        if z:
            s.check("refuse", fin == 0 and not null, fn, "reports success for a finalised or missing context", "ok:" + title)
            if fin == 0 and not null:
                s.check("flip", f is not None and q.leval(f)[0] >= 1, fn, "does not mark the context as finalised", "mark:" + fn)
                p = flin(ip, q, lay, "out_buffer_pos"); l = flin(ip, q, lay, "out_buffer_len")
                s.check("flip", same(q, p, l) and (same(q, l, lconst(0)) or same(q, l, lconst(KB))), fn, "leaves bytes to deliver before any block was made", "left:" + fn)
                s.check("flip", same(q, flin(ip, q, lay, "counter"), kl), fn, "changes the counter", "ctr:" + fn)
                s.check("content", q.mon.get("at") == ("ctx", lay["state"][0]), fn, "the digest of the absorbed bytes is not the new state", "state:" + fn)
        if nz:
            s.check("refuse", f == lconst(fin), fn, "finalises although it reports an error", "eff:" + title)
            s.check("refuse", fin == 1 or null, fn, "refuses to finalise a fresh context", "fresh:" + title)
    finish(s, ip, rl, title, fn)

def t_kinit(s):
    m, ip, st, lay = kstart(); fn = "i_keccak256_init"
    rs = ip.run(func(m, ip, fn), [P("ctx", C(64, 0))], st)
    for q, r in rs:
        z, nz = ret0(q, r)
        s.check("result", z and not nz, fn, "initialisation fails", "ret:" + fn)
        for k in ("buffer_len", "counter", "finalized", "out_buffer_pos", "out_buffer_len"):
            v = ip.load_const(q, q.mem["ctx"], lay[k][0], lay[k][1], 8 * lay[k][1], False, (m.funcs[PFX + fn], None))
            s.check("zero", isinstance(v, V) and v.const() and v.cval() == 0, fn, "%s is not zero after initialisation" % k, k)
    s.check("result", bool(rs), fn, "never returns", "some:" + fn)
    finish(s, ip, (), fn, fn)

def t_kextract(s, fin, null, pos, have):
    """have: 0 nothing left to deliver (position = length), 1 a block in out_buffer of which `pos` bytes were delivered"""
    m, ip, st, lay = kstart(); fn = "i_keccak256_extract"
    title = "%s finalized=%d%s %s" % (fn, fin, " %s=NULL" % null if null else "", "pos=%d" % pos if have else "empty")
    ob = lay["out_buffer"][0]
    fset(st, lay, "finalized", fin); e = fresh("pos", 0, KB)
    fset(st, lay, "out_buffer_pos", pos if have else e); fset(st, lay, "out_buffer_len", KB if have else e)
    K = fset(st, lay, "counter", fresh("counter", 0, 1 << 62))
    S = []
    for i in range(KB):
        x = Sym("S%d" % i, 0, 255); S.append(x)
        st.w("ctx").cells[lay["state"][0] + i] = (1, V(8, 0, 255, (0, {x: 1}), 8))
    n = inlen(st, "out"); nl = st.ulin(n)
    st.mem["out"] = Obj("out", nl, "uninit"); st.own.add("out")
    avail = KB - pos if have else 0
    # ghosts: 0 delivered bytes, 8 bytes used of the current block, 16 bytes left, 24 blocks made
    gset(st, 0, C(64, 0)); gset(st, 8, C(64, pos if have else KB)); gset(st, 16, C(64, avail)); gset(st, 24, K)
    st.mon["locs"] = (("ctx", ob),) if avail else ()
    def left0(st):
        a = st.ulin(gget(st, 16)); return a is not None and st.prove(lscale(a, -1))
    def on_enter(ip, st):
        if G not in st.mem: return
        l = gget(st, 24).lin
        if l is not None and len(l[1]) == 1:        # fewer than 2^62 blocks are ever made
            (z, c), = l[1].items(); b = st.sbounds(z)
            if c == 1 and b[1] > (1 << 62) - l[0]: st.sb[z] = (b[0], (1 << 62) - l[0])
        if left0(st):
            st.mon["locs"] = (); st.ev = ("empty",)
            if not gget(st, 16).const(): gset(st, 16, C(64, 0))
            gset(st, 8, C(64, KB))
        else: st.ev = ("left",)
    ip.on_enter = on_enter
    def deliver(ip, st, at, sz, src, sl, ctx):
        g = st.ulin(gget(st, 0)); p = st.ulin(gget(st, 8)); a = st.ulin(gget(st, 16))
        ip.oblige("deliver", g is not None and st.prove_eq(at, g), ctx, "output written at a place other than the next one")
        ok = sl is not None and p is not None and any(o == src and st.prove_eq(sl, ladd(lconst(c), p)) for o, c in st.mon.get("locs") or ())
        ip.oblige("deliver", ok, ctx, "output is not the next byte of the current block")
        ip.oblige("deliver", a is not None and st.prove(ladd(a, sz, -1)), ctx, "more bytes delivered than the block has left")
        l = st.leval(sz); x = V(64, l[0], l[1], sz, 64) if sz[1] else C(64, sz[0])
        gset(st, 0, ip.add(gget(st, 0), x, st)); gset(st, 8, ip.add(gget(st, 8), x, st)); gset(st, 16, ip.sub(gget(st, 16), x, st))
    def on_store(ip, st, o, c, L, size, v, ctx):
        if st.mon.get("quiet"): return
        at = where_(L, c); sz = size if isinstance(size, tuple) else lconst(size)
        if o.name == "ctx":
            ip.oblige("refuse", fin == 1, ctx, "a context that is not finalised is changed")
            k = field(lay, at, sz[0] if not sz[1] else None)
            ip.oblige("frame", k in ("counter", "out_buffer", "out_buffer_pos", "out_buffer_len"), ctx, "extraction changes the state or the absorbed data")
        if o.name == "out":
            ip.oblige("refuse", fin == 1, ctx, "bytes delivered from a context that is not finalised")
            if isinstance(v, tuple) and v[0] == "copy": deliver(ip, st, at, sz, v[2], v[3], ctx)
            else:
                t = ip.tmof(v) if isinstance(v, V) else None
                ok = t is not None and t[0] >= 8 * size and len(t[1]) == 1 and t[1][0][0] == "m" and t[1][0][4] == ip.version(st, t[1][0][1])
                n8 = div8(t[1][0][5]) if ok else None
                deliver(ip, st, at, sz, t[1][0][1] if ok else None, ladd(t[1][0][2], n8, -1) if n8 is not None else None, ctx)
            return
        # the block moved, or its buffer overwritten
        ls = st.mon.get("locs") or ()
        if isinstance(v, tuple) and v[0] == "copy" and sz == lconst(KB) and not at[1] and v[3] is not None and not v[3][1] and (v[2], v[3][0]) in ls:
            st.mon["locs"] = tuple(x for x in ls if x[0] != o.name) + ((o.name, at[0]),); ip.version(st, o.name, True); return
        lo = st.leval(at)[0]; hi = st.leval(ladd(at, sz))[1]
        if any(x[0] == o.name and lo < x[1] + KB and hi > x[1] for x in ls):
            ip.version(st, o.name, True)
            st.mon["locs"] = tuple(x for x in ls if not (x[0] == o.name and lo < x[1] + KB and hi > x[1]))
    ip.on_store = on_store
    def on_final(ip, st, dst, content, ctx):
        ok = len(content) == KB + 8 and all(isinstance(x, V) for x in content)
        ip.oblige("content", ok, ctx, "a block is hashed from %d bytes, not state and counter" % len(content))
        k = st.ulin(gget(st, 24))
        for i, x in enumerate(content if ok else ()):
            l = x.lin if x.lin is not None and x.lm >= 8 else (x.cval(), {}) if x.const() else None
            if i < KB: ip.oblige("content", l is not None and leq(l, (0, {S[i]: 1})), ctx, "byte %d of the hashed block is not byte %d of the state" % (i, i)); continue
            sh = 8 * (KB + 7 - i); good = False
            if l is not None:
                l = (l[0], {z: c for z, c in l[1].items() if c % 256}); l = ((l[0] + 128) % 256 - 128, l[1])
                if sh == 0: good = k is not None and any(st.prove_eq(l, ladd(k, lconst(-d))) for d in (0, 256)) or k is not None and leq((l[0] % 256, l[1]), (k[0] % 256, k[1]))
                elif len(l[1]) == 1 and l[0] == 0:
                    (z, c), = l[1].items(); h = ip.hiof.get(z)
                    good = c == 1 and h is not None and h[1] == sh and same(st, h[0], k)
            ip.oblige("content", good, ctx, "byte %d of the hashed block is not byte %d of the big-endian counter" % (i, i - KB))
        ip.oblige("drop", left0(st), ctx, "a new block is made while bytes of the last one are undelivered")
        d = st.ulin(dst.off); g = st.ulin(gget(st, 0))
        for i in (range(KB) if dst.obj != "out" else ()):
            st.mon["quiet"] = 1; ip.store(st, P(dst.obj, ip.add(dst.off, C(64, i), st), 0), V(8, 0, 255), 1, ctx); st.mon["quiet"] = 0
        gset(st, 24, ip.add(gget(st, 24), C(64, 1), st))
        if dst.obj == "out":
            ip.access(st, dst, lconst(KB), ctx, True)
            ip.oblige("deliver", same(st, d, g), ctx, "block written at a place other than the next one")
            st.mon["quiet"] = 1; ip.memset(st, dst, V(8, 0, 255), C(64, KB), ctx); st.mon["quiet"] = 0
            gset(st, 0, ip.add(gget(st, 0), C(64, KB), st)); gset(st, 8, C(64, KB)); gset(st, 16, C(64, 0)); st.mon["locs"] = ()
        else:
            if dst.obj == "ctx": ip.oblige("frame", dst.off.const() and dst.off.cval() == ob, ctx, "block written over another field of the context")
            ip.version(st, dst.obj, True); gset(st, 8, C(64, 0)); gset(st, 16, C(64, KB))
            st.mon["locs"] = ((dst.obj, dst.off.cval()),) if dst.off.const() else ()
    khash(ip, st, lay, on_final)
    rl = ("refuse", "deliver", "frame", "content", "drop")
    rs = run(ip, func(m, ip, fn), [kargs(null), P("out", C(64, 0)) if null != "out" else NULL, n], st, rl)
    for q, r in rs or ():
        z, nz = ret0(q, r); g = q.ulin(gget(q, 0))
        s.check("result", not (z and nz), fn, "success and failure are not told apart", "amb:" + fn)
        if z and (not fin or null): s.check("refuse", False, fn, "reports success for a context that is not finalised or a missing buffer", "ok:" + title)
        if nz:
            s.check("refuse", not fin or bool(null), fn, "refuses to deliver from a finalised context", "no:" + fn)
            s.check("refuse", same(q, g, lconst(0)), fn, "delivers although it reports an error", "eff:" + fn)
        if fin and not null and z:
            s.check("count", same(q, g, nl), fn, "returns without having delivered exactly the requested bytes", "count:" + fn)
            s.check("counter", same(q, flin(ip, q, lay, "counter"), q.ulin(gget(q, 24))), fn, "counter in the context is not the number of blocks made", "ctr:" + fn)
            p = flin(ip, q, lay, "out_buffer_pos"); l = flin(ip, q, lay, "out_buffer_len"); a = q.ulin(gget(q, 16)); u = q.ulin(gget(q, 8))
            ok = p is not None and l is not None
            s.check("rest", ok and q.leval(p)[0] >= 0 and q.leval(l)[1] <= KB and (q.prove_eq(l, p) or q.prove_eq(l, lconst(KB)) and q.prove(ladd(l, p, -1))), fn, "position and length left in the context are out of range", "range:" + fn)
            s.check("rest", ok and same(q, ladd(l, p, -1), a), fn, "bytes left in the context are not those still to deliver (bytes dropped or delivered twice)", "left:" + fn)
            if ok and not left0(q): s.check("rest", same(q, p, u) and ("ctx", ob) in (q.mon.get("locs") or ()), fn, "the bytes left are not where the next call reads them", "where:" + fn)
    s.check("count", rs is None or bool(rs), fn, "never returns", "some:" + fn)
    finish(s, ip, rl, title, fn)

def c14(rep):
    rep.rules("every byte absorbed is the next input byte at the next free byte of the buffer, all or none, and none after finalisation", "finalising hashes exactly the absorbed bytes, once",
              "every byte delivered is the next byte of the current block; a block is made from state and big-endian block counter only when the last one is used up", "what is left is kept for the next call")
    rep.trust(*TRUST)
    ts = [("t_kinit",)]
    for f in (0, 1):
        ts += [("t_kinject", f, x) for x in (None, "ctx", "in")] + [("t_kflip", f, x) for x in (False, True)]
    ps = range(0, KB + 1)
    ts += [("t_kextract", 1, None, 0, 0)] + [("t_kextract", 1, None, p, 1) for p in ps] + [("t_kextract", 0, None, 0, 0), ("t_kextract", 0, None, 3, 1), ("t_kextract", 1, "ctx", 0, 0), ("t_kextract", 1, "out", 4, 1)]
    pool(rep, ts)
