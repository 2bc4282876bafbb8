"""Solidity contracts: transforms, norm checks, sizes and ranges."""
import os
from sa import report
from sa.sol import *
from sa.sol import AT, FORMS, P, H as HALF

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
Q = 12289; BOUND = 34034726; HQ = 6144; PSI = 49
U = ("dyn", "uint256")

def brv(i): return int(format(i, "09b")[::-1], 2)
ROOT = [pow(PSI, 2 * brv(i) + 1, Q) for i in range(512)]
ONE = {(): 1}

def prog(r):
    p = Prog(SRC)
    r.trust("the Solidity parser and the abstract machine of sa/solparse.py and sa/sol.py",
            "memory regions are disjoint: code does not write past the free memory pointer into a later allocation",
            "no Solidity compiler is installed here: the source is read directly")
    return p
def where(p, n, g): return "%s:%s" % (os.path.basename(g.file) if hasattr(g, "file") else "src", n)
def form_of(v, m=Q):
    "linear form modulo m of a word, or None"
    st = St0()
    if not isinstance(v, int) and not st.exact(v): return None
    return residue(v, m, st)
def words(m, st, p, n): return [m.mload(st, add(p, 32 + 32 * i)) for i in range(n)]
def one(r, rule, w, m, res, msg):
    "the single normal result of a call"
    ok = r.check(rule, len(res) == 1, w, "%s: %d outcomes" % (msg, len(res)))
    return res[0] if ok else None
def no_oob(r, m, w):
    for (reg, line), o in sorted(m.oob.items(), key=str):
        r.violate("in bounds", "%s line %s" % (w, line), "access at offset %d of %s, outside the array" % (o, reg), key="%s:%s" % (w, reg))
    r.check("in bounds", not m.oob, w, "accesses outside arrays")
def guarded(r, w, f):
    "run an analysis; code it cannot follow is a violation of the rule that it must be decidable"
    try: return f()
    except Unsup as e: r.violate("decided", w, "the analysis does not follow this code: %s" % e, key=w)
    except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e: r.violate("decided", w, "the analysis does not follow this code: %s %s" % (type(e).__name__, e), key=w)

# ------------------------------------------------------------------ S05: transforms
def fun(r, p, n, k):
    g = Machine(p).resolve(n, k)
    if g is None: raise report.Broken("function %s with %d parameters not found" % (n, k))
    return g

def s05(r):
    p = prog(r)
    r.rules("every memory word is kept as a canonical linear form modulo q over the 512 symbolic inputs; equal forms are equal functions for every input",
            "NTTFW must put the evaluation at 49^(2 brv(i)+1) at place i; NTTINV must undo it; VECMULMOD, HALFMUL_Compact, Expand, Compact and Swap must equal their definitions")
    def fw():
        m = Machine(p); st = St0(); a = m.array(st, "a", 512, "elt", (0, Q - 1)); inp = [list(m.mload(st, add(a, 32 + 32 * i)).t)[0][0] for i in range(512)]
        g = fun(r, p, "_ZKNOX_NTTFW_vectorized", 1); w = "_ZKNOX_NTTFW_vectorized"
        x = one(r, "one outcome", w, m, m.call(g, [a], st), "transform")
        if not x: return
        bad = []; ev = []
        for i in range(512):
            v = m.mload(x[0], add(x[1], 32 + 32 * i)); f = form_of(v)
            c = 1; exp = {}
            for k in range(512): exp[inp[k]] = c; c = c * ROOT[i] % Q
            ev.append(v)
            if f != exp or x[0].rng(v)[1] >= Q: bad.append(i)
        r.count("forward transform word", 511)
        r.check("forward transform word", not bad, w, "%d of 512 words are not the evaluation at their root, first %s" % (len(bad), bad[:3]), key=w)
        r.check("length", m.mload(x[0], x[1]) == 512, w, "length of the result")
        no_oob(r, m, w); r.unit(w, "512 symbolic inputs below q"); 
        # inverse
        g = fun(r, p, "_ZKNOX_NTTINV_vectorized", 1); w = "_ZKNOX_NTTINV_vectorized"
        m = Machine(p); st = St0(); b = m.array(st, "b", 512, "zero"); rg = m.reg(st, b)[0]
        for i in range(512):
            c = 1; e = {}
            for k in range(512): e[inp[k]] = c; c = c * ROOT[i] % Q
            rg.cells[32 + 32 * i] = from_form(e, Q)
        x = one(r, "one outcome", w, m, m.call(g, [b], st), "inverse transform")
        if not x: return
        bad = [i for i in range(512) if m.mload(x[0], add(x[1], 32 + 32 * i)) != atom(inp[i])]
        r.count("inverse transform word", 511)
        r.check("inverse transform word", not bad, w, "%d of 512 coefficients are not restored, first %s" % (len(bad), bad[:3]), key=w)
        no_oob(r, m, w); r.unit(w, "the 512 evaluations of a symbolic polynomial")
    guarded(r, "transforms", fw)
    def vec():
        w = "_ZKNOX_VECMULMOD"; m = Machine(p); st = St0(); a = m.array(st, "a", 512, "elt", (0, Q - 1)); b = m.array(st, "b", 512, "elt", (0, W - 1))
        x = one(r, "one outcome", w, m, m.call(fun(r, p, w, 2), [a, b], st), "product")
        if not x: return
        bad = [i for i, (u, v, z) in enumerate(zip(words(m, st, a, 512), words(m, st, b, 512), words(m, x[0], x[1], 512))) if form_of(z) != fprod([form_of(u), form_of(v)], Q) or x[0].rng(z)[1] >= Q]
        r.count("product word", 511); r.check("product word", not bad, w, "words %s are not the product modulo q" % bad[:3], key=w); no_oob(r, m, w); r.unit(w)
    guarded(r, "_ZKNOX_VECMULMOD", vec)
    def exp():
        w = "_ZKNOX_NTT_Expand"; m = Machine(p); st = St0(); a = m.array(st, "a", 32)
        x = one(r, "one outcome", w, m, m.call(fun(r, p, w, 1), [a], st), "expansion")
        if not x: return
        src = words(m, st, a, 32)
        want = [m.op2(st, "and", 0xffff, m.op2(st, "shr", 16 * (i % 16), src[i // 16])) for i in range(512)]
        bad = [i for i, z in enumerate(words(m, x[0], x[1], 512)) if z != want[i]]
        r.count("expanded word", 511); r.check("expanded word", not bad and m.mload(x[0], x[1]) == 512, w, "words %s are not their 16-bit field" % bad[:3], key=w); no_oob(r, m, w); r.unit(w)
        w = "_ZKNOX_NTT_Compact"; m = Machine(p); st = St0(); a = m.array(st, "a", 512, "elt", (0, 65535)); src = words(m, st, a, 512)
        x = one(r, "one outcome", w, m, m.call(fun(r, p, w, 1), [a], st), "compaction")
        if not x: return
        want = []
        for i in range(32):
            v = 0
            for j in range(16): v = add(v, mul(src[16 * i + j], 1 << 16 * j))
            want.append(v)
        bad = [i for i, z in enumerate(words(m, x[0], x[1], 32)) if z != want[i]]
        r.count("compacted word", 31); r.check("compacted word", not bad and m.mload(x[0], x[1]) == 32, w, "words %s are not their sixteen fields" % bad[:3], key=w); no_oob(r, m, w); r.unit(w)
        w = "Swap"; m = Machine(p); st = St0(); a = m.array(st, "a", 512); src = words(m, st, a, 512)
        x = one(r, "one outcome", w, m, m.call(fun(r, p, w, 1), [a], st), "reversal")
        if not x: return
        bad = [i for i, z in enumerate(words(m, x[0], x[1], 512)) if z != src[511 - i]]
        r.count("reversed word", 511); r.check("reversed word", not bad and m.mload(x[0], x[1]) == 512, w, "words %s are not in reverse order" % bad[:3], key=w); no_oob(r, m, w); r.unit(w)
    guarded(r, "packing", exp)
    def half():
        w = "_ZKNOX_NTT_HALFMUL_Compact"; m = Machine(p); st = St0(); a = m.array(st, "a", 32); b = m.array(st, "b", 32)
        x = one(r, "one outcome", w, m, m.call(fun(r, p, w, 2), [a, b], st), "multiplication")
        if not x: return
        want = halfmul(m, st, fields(m, st, a), fields(m, st, b)); ws = words(m, x[0], x[1], 32); bad = []
        for i in range(32):
            v = 0
            for j in range(16): v = add(v, mul(from_form(want[16 * i + j], Q), 1 << 16 * j))
            if ws[i] != v: bad.append(i)
        r.count("half product word", 31); r.check("half product word", not bad and m.mload(x[0], x[1]) == 32, w, "words %s are not the coefficients of the product" % bad[:3], key=w); no_oob(r, m, w); r.unit(w)
    guarded(r, "_ZKNOX_NTT_HALFMUL_Compact", half)

def fields(m, st, a):
    ws = words(m, st, a, 32)
    return [m.op2(st, "and", 0xffff, m.op2(st, "shr", 16 * (i % 16), ws[i // 16])) for i in range(512)]
def evals(vs):
    "forms of the 512 evaluations of the polynomial with these coefficients (forms or words)"
    f = [v if isinstance(v, dict) else form_of(v) for v in vs]
    return fft(f)
def fft(f):
    "forms of sum f_k r_i^k for the 512 roots, by splitting into even and odd"
    def rec(g, rt):                      # rt: list of the squares needed, returns dict root -> form
        if len(g) == 1: return {x: g[0] for x in rt}
        e = rec(g[0::2], {x * x % Q for x in rt}); o = rec(g[1::2], {x * x % Q for x in rt})
        return {x: fadd(e[x * x % Q], o[x * x % Q], x, Q) for x in rt}
    z = rec(f, set(ROOT)); return [z[x] for x in ROOT]
def halfmul(m, st, s2, nh):
    "forms of the coefficients of s2*h, nh being the evaluations of h"
    e = evals(s2); pr = [fprod([e[i], form_of(nh[i])], Q) for i in range(512)]
    # inverse: c_k = 1/512 sum_i r_i^-k e_i
    i5 = pow(512, -1, Q); out = []
    inv = [pow(x, -1, Q) for x in ROOT]; pw = [i5] * 512
    sgl = [next(iter(f.items())) if len(f) == 1 else None for f in pr]
    for k in range(512):
        if all(sgl):
            f = {}
            for i in range(512):
                a, c = sgl[i]; f[a] = (f.get(a, 0) + c * pw[i]) % Q
            f = {a: c for a, c in f.items() if c}
        else:
            f = {}
            for i in range(512): f = fadd(f, pr[i], pw[i], Q)
        out.append(f); pw = [x * y % Q for x, y in zip(pw, inv)]
    return out

# ------------------------------------------------------------------ accepting paths of the contracts
class Entry:
    pass
def h2p_hook(name):
    def h(m, st, vs, ts):
        c = (m.contents(st, vs[0]), m.contents(st, vs[1]))
        p = m.array(st, ("hashed", name) + c, 512, "elt", (0, Q - 1))
        st.trace = st.trace + (("h2p", name, c, p),)
        return [(st, p, U)]
    return h
def other_h2p(m, st, vs, ts): raise Unsup("another hash-to-point function")
def machine(p, contract):
    hk = {n: h2p_hook(n) for n in ("hashToPointNIST", "hashToPointEVM", "hashToPointTETRATION")}
    def read(m, st, vs, ts):
        return [(st, m.bytesv(st, ("stored", key(vs[0])), new("storedlen", key(vs[0]), 0, 1 << 40)), "bytes")]
    hk["SSTORE2.read"] = read
    return Machine(p, hk, contract)
def accepts(m, res, kind):
    "states in which the call succeeded"
    out = []
    for x, v, ty, k in res:
        if kind == "address":
            if x.simp(v) == 0: continue
            out.append((x, v)); continue
        if kind == "bool":
            d = x.truth(v)
            if d is False: continue
            if d is None and not x.assume(m.boolv(x, v), True): continue
            out.append((x, v)); continue
        v = x.simp(v)
        if v == 0xFFFFFFFF: continue
        bs = sorted({a for mo in (v.t if isinstance(v, P) else {}) for a in mo if isbool(a)})
        if len(bs) > 4: raise Unsup("the selector depends on too many conditions")
        for n in range(1 << len(bs)):
            y = x.fork()
            if all(y.assume(atom(a), bool(n >> i & 1)) for i, a in enumerate(bs)) and y.simp(v) != 0xFFFFFFFF: out.append((y, y.simp(v)))
    return out
def norm_poly(m, st, xs):
    t = BOUND
    for x in xs:
        c = m.cmp_ge(st, add(x, HQ + 1, -1))
        # (x - q [x > 6144])^2
        z = add(x, mul(Q, c), -1); t = add(t, mul(z, z), -1)
    return t
def bounded(m, y, E):
    "does the path condition imply E >= 0"
    E = y.simp(E)
    if isinstance(E, int): return sgn(E) >= 0
    if y.rng(E)[0] >= 0: return True
    n = 0
    for a, b in y.known.items():
        o, args = AT.a[a][:2]
        if o != "ge" or len(args) < 100: continue
        p = dict(args)
        if not b: p = {mo: -c for mo, c in p.items()}; p[()] = p.get((), 0) - 1
        n += 1
        d = add(E, mk(p), -1)
        if (sgn(d) if isinstance(d, int) else y.rng(d)[0]) >= 0: return True
    return False

CON = (("ZKNOX_falcon", "hashToPointNIST"), ("ZKNOX_ethfalcon", "hashToPointEVM"))
REC = (("ZKNOX_epervier", "hashToPointNIST"), ("ZKNOX_ethepervier", "hashToPointEVM"))

def run_verify(p, contract):
    "verify(bytes, bytes, uint256[], uint256[]) -> (machine, accepting states, inputs)"
    m = machine(p, contract); st = St0(); e = Entry()
    ln = lambda n: new("in", (n,), 0, 1 << 40)
    e.h = m.bytesv(st, "h", ln("h.length")); e.salt = m.bytesv(st, "salt", ln("salt.length"))
    e.s2 = m.array(st, "s2", ln("s2.length")); e.pk = m.array(st, "ntth", ln("ntth.length"))
    g = next((g for g in p.contracts[contract]["funs"] if g.name == "verify" and len(g.params) == 4), None)
    if g is None: raise report.Broken("%s.verify with four parameters not found" % contract)
    e.salts = m.contents(st, e.salt); e.msgs = m.contents(st, e.h)
    res = m.call(g, [e.h, e.salt, e.s2, e.pk], st)
    return m, accepts(m, res, "bool"), e
def run_bytes(p, contract):
    "verify(bytes, bytes32, bytes)"
    m = machine(p, contract); st = St0(); e = Entry()
    ln = lambda n: new("in", (n,), 0, 1 << 40)
    e.pkb = m.bytesv(st, "pubkey", ln("pubkey.length")); e.sig = m.bytesv(st, "sig", ln("sig.length")); e.dig = new("in", ("digest",))
    g = next((g for g in p.contracts[contract]["funs"] if g.name == "verify" and len(g.params) == 3), None)
    if g is None: raise report.Broken("%s.verify with three parameters not found" % contract)
    res = m.call(g, [e.pkb, e.dig, e.sig], st)
    return m, accepts(m, res, "bytes4"), e
def run_recover(p, contract):
    m = machine(p, contract); st = St0(); e = Entry()
    ln = lambda n: new("in", (n,), 0, 1 << 40)
    e.h = m.bytesv(st, "msgs", ln("msgs.length")); e.salt = m.bytesv(st, "salt", ln("salt.length"))
    e.s1 = m.array(st, "cs1", ln("cs1.length")); e.s2 = m.array(st, "cs2", ln("cs2.length")); e.hint = new("in", ("hint",))
    g = next((g for g in p.contracts[contract]["funs"] if g.name == "recover"), None)
    if g is None: raise report.Broken("%s.recover not found" % contract)
    e.salts = m.contents(st, e.salt); e.msgs = m.contents(st, e.h)
    res = m.call(g, [e.h, e.salt, e.s1, e.s2, e.hint], st)
    return m, accepts(m, res, "address"), e
def len_of(y, m, v): return y.simp(m.mload(y, v))
def hashed_of(y): return [t for t in y.trace if t[0] == "h2p"]

def core_inputs(m, y, e, kind):
    "(field words of s2, evaluations of the key, or None)"
    if kind == "arrays": return fields(m, y, e.s2), fields(m, y, e.pk)
    rg, o = m.reg(y, e.sig, False)
    sw = [new("word", (rg.id, rg.name, 72 + 32 * i)) for i in range(32)]
    s2 = [m.op2(y, "and", 0xffff, m.op2(y, "shr", 16 * (i % 16), sw[i // 16])) for i in range(512)]
    d = [t for t in y.trace if t[0] == "decoded"]
    want = m.op2(y, "shr", 96, new("calldata", key(new("cdoff", key(e.pkb), 0, 1 << 40))))
    d = [t for t in d if t[1] == ("stored", key(want))]
    return s2, fields(m, y, d[0][2]) if len(d) == 1 else None
def verify_norm(m, y, e, kind):
    "the bound minus the norm of (H - s2 h, s2), or None"
    s2, pk = core_inputs(m, y, e, kind); hs = hashed_of(y)
    if pk is None or len(hs) != 1: return None, s2
    h = words(m, y, hs[0][3], 512)
    hin = [new("elt", (y.mem[AT.a[list(hs[0][3].t)[0][0]][1][0]].id, ("hashed", hs[0][1]) + hs[0][2], i), 0, Q - 1) for i in range(512)]
    prod = halfmul(m, y, s2, pk)
    s1 = [from_form(fadd(form_of(hin[i]), prod[i], -1, Q), Q) for i in range(512)]
    return norm_poly(m, y, s1 + s2), s2
def recover_inputs(m, y, e):
    hs = hashed_of(y)
    s1, s2 = fields(m, y, e.s1), fields(m, y, e.s2)
    if len(hs) != 1: return None, s1, s2
    hin = [new("elt", (y.mem[AT.a[list(hs[0][3].t)[0][0]][1][0]].id, ("hashed", hs[0][1]) + hs[0][2], i), 0, Q - 1) for i in range(512)]
    return hin, s1, s2
ENTRIES = [(c, h, k) for c, h in CON for k in ("arrays", "bytes")] + [(c, h, "recover") for c, h in REC]
_C = {}
def analysed(r, p, c, k):
    f = {"arrays": run_verify, "bytes": run_bytes, "recover": run_recover}[k]
    w = c + {"arrays": ".verify(bytes,bytes,uint256[],uint256[])", "bytes": ".verify(bytes,bytes32,bytes)", "recover": ".recover"}[k]
    if c not in p.contracts: raise report.Broken("contract %s not found" % c)
    r.unit(w, "not followed"); res = guarded(r, w, lambda: f(p, c))
    if res is None: return w, None
    m, ac, e = res
    r.check("reachable", len(ac) > 0, w, "no input is accepted", key=w)
    r.unit(w, {"accepting paths": len(ac), "steps": m.steps, "functions": sorted(str(x).split("/")[-1] for x in m.visited)})
    return w, res

def s01(r):
    p = prog(r)
    r.rules("on every accepting path the path condition must imply 34034726 - sum over the 1024 coefficients of (x - q[x > 6144])^2 >= 0, as polynomials over the inputs",
            "for verify the first half is H(salt,msg) - s2*h with the product expanded to its 512 linear forms; for recover both halves are inputs",
            "every access to the arrays stays inside them")
    for c, h, k in ENTRIES:
        w, res = analysed(r, p, c, k)
        if res is None: continue
        m, ac, e = res
        def go():
            for y, v in ac:
                if k == "recover":
                    hin, s1, s2 = recover_inputs(m, y, e); E = norm_poly(m, y, s1 + s2)
                else:
                    E, s2 = verify_norm(m, y, e, k)
                ok = E is not None and bounded(m, y, E)
                r.count("coefficient counted", 1023 if ok else 0)
                r.check("coefficient counted", ok, w, "a signature is accepted although the sum of the 1024 centred squares is not shown to be within 34034726" + ("" if E is not None else ": the hash or the key is not the one given") + missing(m, y, E), key=w)
            no_oob(r, m, w)
        guarded(r, w, go)
    r.need(len(r.units), "entry points", 6)
def missing(m, y, E):
    "which coefficients the nearest condition leaves out"
    if E is None or isinstance(E, int): return ""
    best = None
    for a, b in y.known.items():
        o, args = AT.a[a][:2]
        if o != "ge" or len(args) < 100: continue
        p = dict(args)
        if not b: p = {mo: -c for mo, c in p.items()}; p[()] = p.get((), 0) - 1
        d = add(E, mk(p), -1); n = len(terms(d))
        if best is None or n < best[0]: best = (n, d)
    return "; nearest condition differs by %s" % show(best[1])[:300] if best else "; no norm condition on the path"

def s02(r):
    p = prog(r)
    r.rules("on every accepting path the lengths are fixed to 40 (salt), 32 (arrays) and 1064 (signature bytes) and every 16-bit field of a signature half and the hint are below q")
    for c, h, k in ENTRIES:
        w, res = analysed(r, p, c, k)
        if res is None: continue
        m, ac, e = res
        def go():
            for y, v in ac:
                def ln(name, ptr, want):
                    x = y.simp(m.mload(y, ptr)) if not isinstance(ptr, tuple) else y.simp(ptr[0])
                    r.check("length", y.rng(x) == (want, want), w, "accepted although the length of %s is not shown to be %d" % (name, want), key="%s:%s" % (w, name))
                if k == "arrays": ln("salt", e.salt, 40); ln("s2", e.s2, 32); ln("ntth", e.pk, 32)
                elif k == "bytes": ln("signature", (new("in", ("sig.length",), 0, 1 << 40),), 1064)
                else: ln("salt", e.salt, 40); ln("s1", e.s1, 32); ln("s2", e.s2, 32)
                if k == "recover":
                    hin, s1, s2 = recover_inputs(m, y, e); fs = (("s1", s1), ("s2", s2))
                    r.check("hint below q", y.rng(e.hint)[1] < Q, w, "accepted although the hint is not shown to be below q", key=w + ":hint")
                else:
                    s2, pk = core_inputs(m, y, e, k); fs = (("s2", s2),)
                    if k == "bytes": r.check("key found", pk is not None, w, "the key is not the one stored at the address in the public key", key=w)
                    if pk is not None and k == "bytes":
                        d = [t for t in y.trace if t[0] == "decoded"][0]; ln("stored key", d[2], 32)
                for n, f in fs:
                    bad = [i for i, z in enumerate(f) if y.rng(z)[1] >= Q]
                    r.count("coefficient below q", 511)
                    r.check("coefficient below q", not bad, w, "accepted although %d coefficients of %s are not shown to be below q, first %s" % (len(bad), n, bad[:3]), key="%s:%s" % (w, n))
        guarded(r, w, go)
    r.need(len(r.units), "entry points", 6)

def s06(r):
    p = prog(r)
    r.rules("the accepting path hashes exactly the given salt and message, once, with the contract's own hash-to-point",
            "recover returns the low 160 bits of keccak256 of the 512 words NTT(H - s1) * hint * prod of the other NTT(s2), on paths where hint * prod NTT(s2) = 1 modulo q",
            "conversely some accepting path has only conditions that follow from the sizes, the ranges, the norm bound (strict or not) and the hint equation, so well-formed short signatures are accepted")
    for c, hname, k in ENTRIES:
        w, res = analysed(r, p, c, k)
        if res is None: continue
        m, ac, e = res
        def go():
            acc = []
            for y, v in ac:
                hs = hashed_of(y)
                if k == "bytes":
                    rg, o = m.reg(y, e.sig, False); wd = lambda o: new("word", (rg.id, rg.name, o))
                    salt = [("w", key(wd(32)), 32), ("w", key(m.op2(y, "shr", 192, wd(64))), 8)]; msg = [("w", key(e.dig), 32)]
                else: salt, msg = list(e.salts), list(e.msgs)
                ok = len(hs) == 1 and hs[0][1] == hname and same(y, hs[0][2][0], salt) and same(y, hs[0][2][1], msg)
                r.check("hash of the given salt and message", ok, w, "the point is not %s of the given salt and message (%s)" % (hname, ", ".join(t[1] for t in hs) or "no hash"), key=w)
                if k == "recover":
                    hin, s1, s2 = recover_inputs(m, y, e)
                    if hin is None: continue
                    E = norm_poly(m, y, s1 + s2)
                    n2 = evals(s2); n1 = evals([fadd(form_of(a), form_of(b), -1, Q) for a, b in zip(hin, s1)])
                    hf = form_of(e.hint) if y.rng(e.hint)[1] < W else None
                    tform = prodall([hf] + n2); t = from_form(tform, Q)
                    r.check("hint equation", y.simp(t) == 1 or y.rng(t) == (1, 1), w, "accepted although hint * prod NTT(s2) is not shown to be 1", key=w)
                    rope = []
                    fl = [factors(f, Q) for f in n2]; kall = 1; lall = []
                    for c0, l in fl: kall = kall * c0 % Q; lall += l
                    hk, hl = factors(hf, Q); dead = any(c0 == 0 for c0, l in fl)
                    for i in range(512):
                        ck, cl = factors(n1[i], Q); c0, l = fl[i]
                        rest = list(lall)
                        for z in l: rest.remove(z)
                        kk = kall * pow(c0, -1, Q) * hk * ck % Q
                        f = {AT.get("fprod", tuple(sorted(rest + hl + cl)), 0, W - 1): kk}
                        rope.append(("w", key(from_form(f, Q)), 32))
                    want = new("keccak", tuple(rope)); want = m.op2(y, "and", (1 << 160) - 1, want)
                    r.count("address word", 511)
                    r.check("address word", y.simp(v) == want, w, "the address returned is not that of NTT(H - s1) / NTT(s2)", key=w)
                else:
                    E, s2 = verify_norm(m, y, e, k); t = None
                    r.check("relation", E is not None and bounded(m, y, E), w, "the norm checked is not that of (H - s2*h, s2)", key=w)
                if E is not None: acc.append((y, E, t))
            # conversely
            why = "no accepting path"
            for y, E, t in acc:
                z = St(); z.mem = y.mem
                def eqv(x, val):
                    b = m.cmp_eq(z, add(x, val, -1)); return z.assume(b, True) if not isinstance(b, int) else bool(b)
                ok = True
                if k == "arrays": ls = ((e.salt, 40), (e.s2, 32), (e.pk, 32)); fs = fields(m, z, e.s2)
                elif k == "bytes":
                    ls = (); ok = eqv(new("in", ("sig.length",), 0, 1 << 40), 1064)
                    d = [x for x in y.trace if x[0] == "decoded"]; ls = tuple((x[2], 32) for x in d); fs = core_inputs(m, y, e, k)[0]
                else: ls = ((e.salt, 40), (e.s1, 32), (e.s2, 32)); fs = fields(m, z, e.s1) + fields(m, z, e.s2) + [e.hint]
                for ptr, n in ls:
                    ok = ok and eqv(y.mem[AT.a[list(ptr.t)[0][0]][1][0]].cells[0], n)
                for x in fs:
                    b = m.lt(z, x, Q)
                    if not isinstance(b, int): ok = ok and z.assume(b, True)
                if t is not None: ok = ok and eqv(t, 1)
                r.check("consistent", ok, w, "well-formed inputs contradict each other", key=w)
                left = []
                for v0, tr in y.conds:
                    d = z.truth(v0)
                    if d == tr: continue
                    if d is None and implied(m, z, v0, tr, E, k == "recover"): continue
                    left.append((v0, tr))
                if not left: why = None; break
                why = "condition %s %s" % (show(left[0][0])[:160], left[0][1])
            r.check("accepts the well-formed", why is None, w, "well-formed short signatures may be refused: %s" % why, key=w)
        guarded(r, w, go)
    r.need(len(r.units), "entry points", 6)
def prodall(fs):
    k = 1; l = []
    for f in fs:
        c, x = factors(f, Q); k = k * c % Q; l += x
    return {AT.get("fprod", tuple(sorted(l)), 0, W - 1): k} if k else {}
def same(y, a, b):
    "two ropes with the known values put in"
    def nz(rope):
        out = []
        for z in rope:
            out.append(tuple(key(y.simp(P(dict(x)))) if isinstance(x, frozenset) else x for x in z))
        return out
    return nz(a) == nz(b)
def reval(m, z, v):
    "conditions inside a condition, under the assumptions of z"
    if isinstance(v, int): return v
    out = 0
    for mo, c in v.t.items():
        t = c % W
        for a in mo:
            o, args = AT.a[a][:2]; x = atom(a)
            if o in ("eq", "ge") and len(args) <= 100:
                p = z.simp(P(dict(args))); x = m.cmp_eq(z, p) if o == "eq" else m.cmp_ge(z, p)
            elif o == "conj":
                l = [reval(m, z, k if isinstance(k, int) else z.simp(P(dict(k)))) for k in args]
                if all(k == 1 for k in l): x = 1
                elif any(k == 0 for k in l): x = 0
            t = mul(t, x)
        out = add(out, t)
    return out
def implied(m, z, v, tr, E, incl):
    "the condition follows from E >= 0 (or E > 0)"
    v = reval(m, z, z.simp(v)); E = z.simp(E)
    if isinstance(v, int): return bool(v) == tr
    if len(v.t) > 2 or any(len(mo) > 1 for mo in v.t): return False
    a = next((mo[0] for mo in v.t if mo), None)
    if a is None or AT.a[a][0] != "ge": return False
    # the value of the atom that makes the condition true
    def val(b): return sum(c * (b if mo else 1) for mo, c in v.t.items()) % W != 0
    bs = [b for b in (0, 1) if val(b) == tr]
    if len(bs) == 2: return True
    if not bs: return False
    p = dict(AT.a[a][1])
    if not bs[0]: p = {mo: -c for mo, c in p.items()}; p[()] = p.get((), 0) - 1
    d = add(mk(p), E, -1); lo = sgn(d) if isinstance(d, int) else z.rng(d)[0]
    return lo >= (0 if incl else -1)

# ------------------------------------------------------------------ S03: hash to point
def s03(r):
    from sa.solhash import Hash
    p = prog(r)
    r.rules("a store of a sample modulo q is allowed only for the next sample of the stream, known to be below 61445, at the place after the values stored so far; a sample is passed over only when it is known to be at least 61445; a block is taken only when the previous one is used up",
            "at the head of every sampling loop each variable is a linear expression over the number of values stored and the number of blocks taken, and the expression holds again on every way around, for every number of iterations",
            "the function returns only with exactly 512 values stored, in the array it returns, of length 512")
    r.trust("the sponge functions of ZKNOX_shake.sol by their contract: update absorbs, pad ends the input, squeeze gives the next bytes", "fewer than 2^62 blocks are taken")
    for name, mode in (("hashToPointEVM", "evm"), ("hashToPointNIST", "nist"), ("hashToPointTETRATION", "tet")):
        g = fun(r, p, name, 2); w = name
        def go():
            m = Hash(p, mode); st = St0()
            a = m.bytesv(st, "salt", new("in", ("salt.length",), 0, 1 << 40)); b = m.bytesv(st, "msg", new("in", ("msg.length",), 0, 1 << 40))
            cs, cm = tuple(m.contents(st, a)), tuple(m.contents(st, b))
            m.order = cm + cs if mode == "tet" else cs + cm
            try: res = m.call(g, [a, b], st)
            except Unsup:
                if not m.bad: raise
                res = []
            n = 0
            for x, v, *_ in res:
                for y in m.settle(x):
                    n += 1; lo, hi = y.rng(m.A(y))
                    r.check("512 values", (lo, hi) == (512, 512), w, "returns with between %s and %s values stored" % (lo, hi), key=w)
                    bs = m.bases(v)
                    r.check("result returned", len(bs) == 1 and bs[0] == y.g.get("out"), w, "the array returned is not the one filled", key=w)
                    ln = m.addr(y, v)
                    r.check("length", ln[0] is not None and ln[1] == 0 and y.mem[ln[0]].cells.get(0) == 512, w, "length of the result", key=w)
            for rule, line, msg in m.bad: r.violate(rule, "%s line %s" % (w, line), msg, key=w)
            for rule in ("stream", "order of the samples", "place of each value", "value of each place"): r.check(rule, not any(b[0] == rule for b in m.bad), w, "see above", key=w)
            if m.bad: return
            r.check("returns", n >= 1, w, "no normal return is reached", key=w)
            r.count("accepting stores", m.nstores); r.count("loop heads followed", m.nruns)
            r.check("stores seen", m.nstores >= 1, w, "no store of a sample was recognised", key=w)
            no_oob(r, m, w); r.unit(w, "any salt and message; %d loop states, %d stores" % (m.nruns, m.nstores))
        guarded(r, w, go)

# ------------------------------------------------------------------ S07: SHAKE256
def s07(r):
    from sa.solshake import Keccak, anf, formof
    p = prog(r)
    r.rules("f1600 gives, for every state, the 25 lanes of Keccak-f[1600]: each word is kept as its algebraic normal form over the 25 lanes before the round and compared with the definition of FIPS 202 after each of the 24 rounds",
            "for symbolic input bytes and opaque permutation results, every call of f1600 receives the state of the SHAKE256 sponge (rate 136, padding 0x1f .. 0x80) and every byte delivered is the next byte of the sponge")
    r.trust("inputs are followed for every length and cut listed in the evidence; contents are arbitrary")
    def perm():
        w = "f1600"; g = fun(r, p, "f1600", 1); m = Keccak(p); st = St0()
        a = m.region(st, "state", "zero", 800, 32); rg = m.reg(st, a)[0]
        for i in range(25): rg.cells[32 * i] = P({(AT.get("anf", anf.key(anf.lane(("L", 0, i))), 0, (1 << 64) - 1),): 1})
        x = one(r, "one outcome", w, m, m.call(g, [a], st), "permutation")
        if not x: return
        bad = []
        for i in range(25):
            v = m.mload(x[0], add(x[1], 32 * i)); f = formof(v) if not isinstance(v, int) else None
            r.check("lane of the permutation", f is not None and anf.key(f) == anf.key(anf.lane(("L", 24, i))), w, "lane %d of the result is not that of Keccak-f[1600]" % i, key=w)
        h = anf.cut().hits
        done = [k for k in range(1, 25) if all(("L", k, i) in h for i in range(25))]
        r.count("round lane recognised", sum(1 for k in h))
        if len(done) < 24: r.violate("rounds", w, "round %d does not give the state of the definition" % next(k for k in range(1, 25) if k not in done), key=w)
        no_oob(r, m, w); r.unit(w, "25 symbolic lanes, 24 rounds")
    try: guarded(r, "f1600", perm)
    except anf.TooBig as e: r.violate("rounds", "f1600", "%s" % e, key="f1600")
    thorough = r.tier == "thorough"
    guarded(r, "shake", lambda: sponge(r, p, thorough))

class Sponge:
    "a run of the Solidity sponge next to the definition; the permutation is opaque"
    R = 136
    def __init__(s, r, p, start):
        from sa.solshake import Keccak
        s.r, s.p = r, p; s.m = Keccak(p); s.st = St0(); s.msg = []; s.log = []; s.n = 0; s.done = 0; s.out = []
        s.m.hooks["f1600"] = lambda m, st, vs, ts: s.perm(st, vs)
        s.ctx = s.call("shakeInit", []) if start == "init" else s.m.zero(s.st, "CtxShake", "ctx")
    def call(s, n, a):
        res = s.m.call(fun(s.r, s.p, n, len(a)), a, s.st)
        if len(res) != 1: raise Unsup("%s has %d outcomes" % (n, len(res)))
        s.st = res[0][0]; return res[0][1]
    def lane(s, t, i): return new("in", ("perm", t, i), 0, (1 << 64) - 1) if t >= 0 else 0
    def perm(s, st, vs):
        t = len(s.log)
        s.log.append([s.m.mload(st, add(vs[0], 32 * i)) for i in range(25)])
        for i in range(25): s.m.mstore(st, add(vs[0], 32 * i), s.lane(t, i))
        return [(st, vs[0], ("arr", "uint64", 25))]
    def update(s, n):
        s.n += 1; b = s.m.bytesv(s.st, "msg%d" % s.n, n)
        for j in range(n):
            o = 32 + j - j % 32; w = new("word", (s.m.reg(s.st, b)[0].id, "msg%d" % s.n, o))
            s.msg.append(bits(next(iter(w.t))[0], 248 - 8 * (j % 32), 8))
        s.ctx = s.call("shakeUpdate", [s.ctx, b])
    def pad(s): s.ctx = s.call("shakePad", [s.ctx])
    def take(s, v, n):
        if s.st.simp(s.m.mload(s.st, v)) != n: return "the output does not have the length asked for"
        ws = [s.m.mload(s.st, add(v, 32 + 32 * i)) for i in range((n + 31) // 32)]
        s.out += [s.m.op2(s.st, "byte", j % 32, ws[j // 32]) for j in range(n)]
    def squeeze(s, n):
        s.ctx, v = s.call("shakeSqueeze", [s.ctx, n]); return s.take(v, n)
    def digest(s, n): return s.take(s.call("shakeDigest", [s.ctx, n]), n)
    def compare(s):
        "first difference with the definition, or None"
        from sa.solshake import same as eq
        R = s.R; m = list(s.msg); k = len(m) % R; pad = [0x1f] + [0] * (R - 1 - k)
        pad[-1] ^= 0x80; m += pad; nb = len(m) // R
        for t, got in enumerate(s.log):
            for i in range(25):
                e = s.lane(t - 1, i)
                if t < nb and i < R // 8:
                    b = 0
                    for j in range(8): b = add(b, mul(m[R * t + 8 * i + j], 1 << 8 * j))
                    e = s.m.op2(s.st, "xor", e, b)
                if not eq(got[i], e): return "permutation %d is given a lane %d that is not that of the sponge" % (t + 1, i)
        for j, v in enumerate(s.out):
            t, q = nb - 1 + j // R, j % R
            e = bits(next(iter(s.lane(t, q // 8).t))[0], 8 * (q % 8), 8)
            if t >= len(s.log) or not eq(v, e): return "output byte %d is not that of the sponge" % j
def sponge(r, p, thorough):
    R = 136; tot = {"n": 0, "b": 0}
    def run(start, ups, outs, dig, w):
        s = Sponge(r, p, start); bad = None
        for n in ups: s.update(n)
        if dig: bad = s.digest(outs[0])
        else:
            s.pad()
            for n in outs: bad = bad or s.squeeze(n)
        bad = bad or s.compare(); tot["n"] += 1; tot["b"] += len(s.log) + len(s.out)
        r.check("history", not bad, w, "%s, inputs of %s bytes, outputs of %s: %s" % ("shakeDigest" if dig else "shakePad and shakeSqueeze", list(ups), list(outs), bad), key=w)
        if s.m.oob: no_oob(r, s.m, w)
        return not bad
    top = 700 if thorough else 280
    edge = [0, 1, 7, 8, 9, 31, 32, 33, 134, 135, 136, 137, 271, 272, 273] + ([407, 408, 409, 1000] if thorough else [])
    cases = [("init", (n,), (2,), False) for n in range(top)] + [("zero", (n,), (1,), False) for n in range(0, top, 8)]
    cases += [("init", (n,), (32,), True) for n in range(0, 280, 1 if thorough else 5)] + [("init", (), (1,), False), ("init", (), (137,), True), ("zero", (), (1,), False)]
    cases += [("init", (a, b), (1,), False) for a in (edge if not thorough else range(140)) for b in edge]
    cases += [("init", (a, b, c), (1,), False) for a in (1, 40, 135) for b in (0, 1, 95, 96, 97, 136) for c in (1, 40, 135, 136)]
    cases += [("init", (72,), (n,), False) for n in range(top)] + [("init", (5,), (a, b), False) for a in edge for b in edge]
    cases += [("zero", (72,), (136,) * k, False) for k in (2, 9)] + [("init", (3,), (a, b, c), False) for a in (1, 135, 136) for b in (0, 1, 136) for c in (1, 135, 137)]
    bad = 0
    for start, ups, outs, dig in cases:
        w = "shakeDigest" if dig else "sponge"
        if not run(start, ups, outs, dig, w): bad += 1
        if bad >= 5: break
    r.count("permutation inputs and output bytes", tot["b"]); r.unit("sponge", "%d histories of symbolic bytes; %d permutation inputs and output bytes" % (tot["n"], tot["b"]))
