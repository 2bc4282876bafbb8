"""Python reference: XOFs, decoders, verifiers, signers, command line tool."""
import ast, os
from sa import report
from sa.py import *
from sa.py import St, Ip, Src, S, I, K, R, T, B, V, Fn, Cls, Bound, Ext, Exc, Undef, Obj, SeqO, NONE, TRUE, FALSE, const, strval, slen, bits_of, src_of, lin_of, cmk, cshow, show, term, islin, DEF, csub, Unsup, Mod, UNROLL

REPO = os.environ.get("VERIF_REPO", "/repo")
PYREF = os.path.join(REPO, "pythonref")

def fresh_n(name): return lsym(Sym(name, 0, 1 << 40))
from sa.py import lsym, Sym

class Lib:
    """library models shared by the drivers: hash objects, random sources, ghost streams"""
    def __init__(self, ip):
        self.ip = ip
        self.IN = src_of(("IN",), "input", 0, 255)
        self.cls = Cls("lib:hash", Mod("lib"), [], {})
        h = ip.hooks
        h["Crypto.Hash.keccak.new"] = lambda ip, st, a, kw: self.new(st, "keccak256", a, kw, {"digest_bytes": 32, "digest_bits": 256})
        h["hashlib.blake2s"] = lambda ip, st, a, kw: self.new(st, "blake2s", a, kw, {"digest_size": 32})
        ip.mhooks["update"] = self.update; ip.mhooks["digest"] = self.digest
        h["driver.nondet"] = lambda ip, st, a, kw: [(st, B(("tt", T("nondet", I(lsym(Sym("nd", 0, 1)))))))]
        h["driver.chunk"] = self.chunk; h["driver.some"] = lambda ip, st, a, kw: [(st, I(fresh_n("n")))]
    def new(self, st, algo, a, kw, want):
        for k, v in kw.items():
            if k in want and const(v) != want[k]: algo = "%s/%s=%s" % (algo, k, show(v))
            elif k not in want and k != "data": algo = "%s/%s" % (algo, k)
        if not any(k in want for k in kw) and algo == "keccak256": algo = "keccak/unspecified"
        data = kw.get("data") or (a[0] if a else None)
        s = self.ip.seq(data, st) if data is not None else None
        return [(st, self.ip.alloc(st, Obj(self.cls, {"algo": K(algo), "data": S("bytes", s.p if s is not None else [])})))]
    def mine(self, st, o):
        return isinstance(o, R) and isinstance(st.heap.get(o.i), Obj) and st.heap[o.i].cls is self.cls
    def update(self, ip, st, o, a, kw):
        if not self.mine(st, o): return None
        h = st.heap[o.i].copy(); s = ip.seq(a[0], st)
        if s is None: s = S("bytes", [("s", ip.src_term(ip.val(a[0], st), 0, 255), lconst(0), ip.vlen(a[0], st))])
        h.a["data"] = S("bytes", h.a["data"].p + s.p); st.heap[o.i] = h
        return [(st, o)]
    def digest(self, ip, st, o, a, kw):
        if not self.mine(st, o): return None
        h = st.heap[o.i]; d = st.vnorm(h.a["data"]); algo = h.a["algo"].v
        return [(st, S("bytes", self.hash(algo, d, st)))]
    def hash(self, algo, d, st):
        ps = d.p
        if len(ps) == 2 and ps[0][0] == "s" and ps[1][0] == "s":
            x, y = ps[0][1], ps[1][1]
            tx, ty = getattr(x, "term", None), getattr(y, "term", None)
            if isinstance(tx, T) and tx.op == "digest" and st.zero(ps[0][2]) and st.zero(ladd(ps[0][3], lconst(-32))) \
               and isinstance(ty, T) and ty.op == "be" and const(ty.a[0]) == 8 and st.zero(ps[1][2]) and st.zero(ladd(ps[1][3], lconst(-8))):
                ks = src_of(("KS", algo, x.key()), "blocks", 0, 255); ks.parent = x; ks.algo = algo
                return [("s", ks, lscale(ty.a[1].lin, 32), lconst(32))]
        src = self.ip.src_term(T("digest", K(algo), d), 0, 255); src.data = d; src.algo = algo
        return [("s", src, lconst(0), lconst(32))]
    def chunk(self, ip, st, a, kw):
        n = fresh_n("len")
        return [(st, S("bytes", [("s", self.IN, st.norm(lin_of(a[0])), n)]))]

def driver(ip, text, env, name="driver"):
    m = Mod(name); m.path = name; m.tree = ast.parse(text); m.heap = {}
    m.env = dict(env); ip.mods[name] = m
    st = St(); st.fr = [m.env]
    ip.block(m.tree.body, st, m)
    m.env = st.fr[-1]
    return m

PRNG = '''
def run():
    p = PRNG.new()
    A = 0
    while nondet():
        d = chunk(A)
        try:
            p.update(d)
        except Exception:
            refused(A, d)
            continue
        accepted(A, d)
        A += len(d)
    if nondet():
        try:
            p.read(some())
        except Exception:
            return 0
        early()
        return 0
    p.flip()
    D = 0
    while nondet():
        if nondet():
            try:
                p.update(chunk(A))
            except Exception:
                continue
            late()
        elif nondet():
            try:
                p.flip()
            except Exception:
                continue
            twice()
        else:
            n = some()
            out = p.read(n)
            check(out, n, A, D)
            D += n
    return 1
'''
def c_capacity():
    "capacity of the C generator (keccak_prng.h)"
    import re
    t = open(os.path.join(REPO, "falcon/nistfalcon/src/keccak_prng.h")).read()
    m = re.search(r"#\s*define\s+MAX_BUFFER_SIZE\s+\(?(\d+)", t)
    if not m: raise Unsup("capacity of the C generator not found")
    return int(m.group(1))

def drive_prng(mod, cls, algo, keys=("typestate", "length", "stream", "state", "capacity")):
    "a client that absorbs any chunks, finalises and reads any lengths in any order"
    hooks = {}
    ip = Ip(PYREF, hooks); lib = Lib(ip)
    title = "%s.%s" % (mod, cls); cap = c_capacity()
    m = ip.module(mod)
    if cls not in m.env: raise Unsup("%s has no %s" % (mod, cls))
    def bad(kind, msg):
        def f(ip, st, a, kw):
            ip.oblige(kind, False, title, msg); return [(st, NONE)]
        return f
    def nop(ip, st, a, kw): return [(st, NONE)]
    def refused(ip, st, a, kw):
        s = ip.seq(a[1], st)
        ip.oblige("capacity", st.prove(ladd(ladd(a[0].lin, slen(s)), lconst(-cap - 1))), title, "input is refused although it fits the %d bytes of the generator" % cap)
        return [(st, NONE)]
    def accepted(ip, st, a, kw):
        s = ip.seq(a[1], st)
        ip.oblige("capacity", st.prove(ladd(lconst(cap), ladd(a[0].lin, slen(s)), -1)), title, "more than %d bytes of input are accepted" % cap)
        return [(st, NONE)]
    def check(ip, st, a, kw):
        out, n, A, D = a; s = ip.seq(out, st)
        ok = s is not None and st.zero(ladd(slen(s), n.lin, -1))
        ip.oblige("length", ok, title, "read(n) returns %s bytes" % (show(st.norm(slen(s))) if s is not None else "no"))
        ps = Gen.tidy(None, s.p, st) if s is not None else []
        pos = D.lin; good = True; msg = ""
        for p in ps:
            if p[0] != "s" or getattr(p[1], "parent", None) is None: good = False; msg = "output is not a digest of the state and a counter: %s" % show(S("bytes", [p]))[:150]; break
            if not st.zero(ladd(p[2], pos, -1)): good = False; msg = "byte %s of the stream is delivered at place %s" % (show(p[2]), show(pos)); break
            pos = ladd(pos, p[3])
            if p[1].algo != algo: good = False; msg = "blocks are made with %s" % p[1].algo; break
            par = p[1].parent
            d = Gen.tidy(None, par.data.p, st)
            okd = par.algo == algo and len(d) <= 1 and all(x[0] == "s" and x[1] is lib.IN and st.zero(x[2]) and st.zero(ladd(x[3], A.lin, -1)) for x in d) and (d or st.zero(A.lin))
            ip.oblige("state", bool(okd), title, "the state is not the digest of exactly the absorbed bytes: %s" % show(par.data)[:150])
        ip.oblige("stream", good, title, msg)
        return [(st, NONE)]
    hooks.update({"driver.check": check, "driver.early": bad("typestate", "output before finalisation"), "driver.late": bad("typestate", "input after finalisation is accepted"),
                  "driver.twice": bad("typestate", "finalising twice is accepted"), "driver.refused": refused, "driver.accepted": accepted})
    dm = driver(ip, PRNG, {"PRNG": m.env[cls], **{k: Ext("driver." + k) for k in ("nondet", "chunk", "some", "check", "early", "late", "twice", "refused", "accepted")}})
    rs = ip.call(dm.env["run"], [], {}, St())
    for st, v in rs:
        if isinstance(v, Exc): ip.oblige("exception", False, title, "%s at %s" % (v.name, v.where))
    done = any(const(v) == 1 for st, v in rs)
    ip.oblige("typestate", done, title, "no path finalises and reads")
    return ip, rs

def emit(rep, ip, title, floor, only=None, total=False):
    for (kind, where), ok in ip.obl.items():
        if only and kind not in only: continue
        rep.check(kind, ok, "%s" % where, ip.alarms.get((kind, where), "")[:400], key=where)
        rep.count(kind, ip.cnt[(kind, where)] - 1)
    rep.unit(title, {"statements": ip.steps, "loops": ip.loops, "invariant_rounds": ip.loop_rounds, "functions": sorted(str(f) for f in ip.fns)[:60]})
    for k in floor if all(ip.obl.values()) else ():
        n = sum(1 for (a, w) in ip.obl if a == k)
        if total: rep.check("completes", n >= 1, title, "no path gets as far as the step '%s': the calls before it raise or never return for every input" % k, key="%s:%s" % (title, k))
        else: rep.need(n, "%s: obligations of kind %s" % (title, k), 1)

TRUSTP = ("CPython semantics of the statements and built-in types as modelled in sa/py.py; anything outside the model stops the analysis with an error",
          "Crypto.Hash.keccak / hashlib: digest() of an object is a function of the bytes passed to update()")

PRNGS = (("keccak_prng", "KeccakPRNG", "keccak256"), ("blake2s_prng", "Blake2sPRNG", "blake2s"))

def y06(rep):
    rep.rules("for every history of absorb/finalise/read calls with any lengths: input is refused exactly after finalisation or beyond the capacity of the C generator", "finalising twice and reading early are refused",
              "the state is the 32-byte digest of exactly the absorbed bytes", "read(n) returns the next n bytes of the stream digest(state || BE64(0)) || digest(state || BE64(1)) || ...")
    rep.trust(*TRUSTP)
    for mod, cls, algo in PRNGS:
        ip, rs = drive_prng(mod, cls, algo)
        emit(rep, ip, "%s.%s" % (mod, cls), ("length", "stream", "state", "capacity", "typestate"), total=True)

# ------------------------------------------------------------------ signature decoding
def allzero(st, b, lo, hi):
    "every bit of b in [lo, hi) is zero on this path"
    cur = st.norm(lo); hi = st.norm(hi)
    iv = []
    for c in st.pc:
        if c[0] == "all" and c[1][0] == "eq":
            for t, k in c[1][1][1].items():
                d = DEF.get(t)
                if d is not None and d[0] == "at" and d[1][0] is b and not c[1][1][0] and len(c[1][1][1]) == 1:
                    q = d[1][1]
                    if q[1].get(c[2]) == 1:
                        off = ladd(q, lsym(c[2]), -1)
                        iv.append((st.norm(ladd(c[3], off)), st.norm(ladd(c[4], off))))
        elif c[0] == "eq" and not c[1][0] and len(c[1][1]) == 1:
            for t in c[1][1]:
                d = DEF.get(t)
                if d is not None and d[0] == "at" and d[1][0] is b: iv.append((st.norm(d[1][1]), st.norm(ladd(d[1][1], lconst(1)))))
    while True:
        if st.prove(ladd(cur, hi, -1)): return True
        k = next((k for k, (x, y) in enumerate(iv) if st.prove(ladd(cur, x, -1)) and st.prove(ladd(y, cur, -1))), None)
        if k is not None: cur = iv.pop(k)[1]
        elif st.zero(lsym(term("at", (b, cur), 0, 1))): cur = ladd(cur, lconst(1))
        else: return False

def posk(o): return "pos%d" % o.i

def drive_decompress(fn="decompress", mod="encoding"):
    """every path of the decoder for every input: result, and the place in the bit stream of each coefficient"""
    ip = Ip(PYREF, {}); title = "%s.%s" % (mod, fn)
    m = ip.module(mod); st = St()
    if fn not in m.env: raise Unsup("%s has no %s" % (mod, fn))
    IN = src_of(("IN",), "input", 0, 255); BITS = bits_of(IN)
    L = lsym(Sym("len", 0, 1 << 20)); n = lsym(Sym("n", 1, 4096)); sl = lsym(Sym("slen", 0, 1 << 20))
    bad = {}
    def app(ip, st, o, pos, v):
        if not isinstance(o, R) or not isinstance(v, I): return
        p = st.g[posk(o)].lin if posk(o) in st.g else lconst(0)
        msgs = []; sign = None
        s = lsym(term("at", (BITS, st.norm(p)), 0, 1))
        if st.zero(s): sign = 1
        elif st.nonzero(s): sign = -1
        low = ip.bitval([("s", BITS, st.norm(ladd(p, lconst(1))), lconst(7))]).lin
        adv = lconst(9)
        if sign is None: msgs.append("the sign of a coefficient is not the bit at its place")
        else:
            r = st.norm(ladd(lscale(st.norm(v.lin), sign), st.norm(low), -1))
            if r[0] % 128 or any(c % 128 for c in r[1].values()): msgs.append("a coefficient is not its sign, seven low bits and 128 times its unary part: %s" % show(v)[:120])
            else:
                h = (r[0] // 128, {t: c // 128 for t, c in r[1].items()})
                e = ladd(ladd(p, lconst(8)), h)
                if not st.prove(h): msgs.append("a coefficient with a negative high part")
                if not allzero(st, BITS, ladd(p, lconst(8)), e): msgs.append("the high part of a coefficient is not the number of zero bits before the next one")
                if not st.nonzero(lsym(term("at", (BITS, st.norm(e)), 0, 1))): msgs.append("the high part of a coefficient is not ended by a one bit")
                if sign < 0 and not st.nonzero(st.norm(v.lin)): msgs.append("a negative zero is accepted")
                adv = ladd(lconst(9), h)
        st.g[posk(o)] = I(st.norm(ladd(p, adv)))
        if not ip.quiet:
            for x in msgs: bad.setdefault(o.i, []).append(x)
    ip.on_append = app
    rs = ip.call(m.env[fn], [S("bytes", [("s", IN, lconst(0), L)]), I(sl), I(n)], {}, st)
    lists = 0
    for s, v in rs:
        if isinstance(v, Exc): ip.oblige("never-raises", False, title, "%s may be raised at %s:%s" % (v.name, v.where[0], v.where[1])); continue
        if const(v) is False or isinstance(v, B) and v.c == ("F",): ip.oblige("result", True, title); continue
        q = ip.seq(v, s)
        if not isinstance(v, R) or q is None: ip.oblige("result", False, title, "returns %s" % show(v)[:100]); continue
        lists += 1; s.close()
        ip.oblige("result", s.zero(ladd(slen(q), n, -1)), title, "returns %s coefficients" % show(s.norm(slen(q))))
        p = s.g.get(posk(v), I(0)).lin
        ip.oblige("coefficients", not bad.get(v.i), title, "; ".join(sorted(set(bad.get(v.i, [])))))
        ip.oblige("padding", s.prove(ladd(lscale(L, 8), p, -1)) and allzero(s, BITS, p, lscale(L, 8)), title, "bits after the last coefficient may be non-zero")
        ip.oblige("too-long", s.prove(ladd(sl, L, -1)), title, "an input longer than slen is accepted")
    ip.oblige("never-raises", True, title); ip.oblige("result", lists > 0, title, "no input is accepted")
    return ip, rs, title

def drive_pk(mod="falcon", cls="PublicKey", fn="from_bytes", sizes=((9, 512), (10, 1024)), q=12289, stub=("fft", "ffsampling", "ntrugen", "rng", "samplerz")):
    """every path of the key decoder for every input"""
    ip = Ip(PYREF, {}, stub=stub); title = "%s.%s.%s" % (mod, cls, fn)
    m = ip.module(mod); st = St()
    if cls not in m.env: raise Unsup("%s has no %s" % (mod, cls))
    st.fr = [{}]
    IN = src_of(("IN",), "input", 0, 255); BITS = bits_of(IN)
    L = lsym(Sym("len", 0, 1 << 20))
    bad = {}
    def app(ip, st, o, pos, v):
        if not isinstance(o, R) or not isinstance(v, I): return
        p = st.g[posk(o)].lin if posk(o) in st.g else lconst(0)
        st.g[posk(o)] = I(st.norm(ladd(p, lconst(1))))
        msgs = []
        field(ip, st, v, p, msgs)
        if not ip.quiet:
            for x in msgs: bad.setdefault(o.i, []).append(x)
    def field(ip, st, v, p, msgs):
        bv = v.bits; bv = Gen.tidy(None, [("c", [I(z) for z in x[1]]) if x[0] == "c" else x for x in bv], st) if bv else None
        if bv is None or len(bv) != 1 or bv[0][0] != "s" or bv[0][1] is not BITS or not st.zero(ladd(bv[0][3], lconst(-14))) or not st.zero(ladd(bv[0][2], ladd(lconst(8), lscale(p, 14)), -1)):
            msgs.append("a coefficient is not the 14-bit field at its place: %s" % show(v)[:120])
        if not st.prove(ladd(lconst(q - 1), v.lin, -1)): msgs.append("a coefficient not below q is accepted")
    ip.on_append = app
    rs = ip.call(ip.attr(m.env[cls], fn, st), [S("bytes", [("s", IN, lconst(0), L)])], {}, st)
    seen = set()
    for s, v in rs:
        if isinstance(v, Exc):
            ip.oblige("refusal", v.name == "ValueError", title, "%s may be raised at %s:%s" % (v.name, v.where[0], v.where[1])); continue
        h = s.heap.get(v.i) if isinstance(v, R) else None
        if not isinstance(h, Obj) or h.cls.name != cls: ip.oblige("result", False, title, "returns %s" % show(v)[:100]); continue
        s.close()
        hd = lsym(term("at", (IN, lconst(0)), 0, 255))
        n = next((b for a, b in sizes if s.zero(ladd(hd, lconst(-a)))), None)
        ip.oblige("header", n is not None, title, "an unknown header byte is accepted")
        if n is None: continue
        seen.add(n)
        ip.oblige("length", s.zero(ladd(L, lconst(-(1 + 14 * n // 8)))), title, "a key whose length does not fit its header is accepted")
        k = h.a.get("pk"); sq = ip.seq(k, s) if k is not None else None
        ip.oblige("count", sq is not None and s.zero(ladd(slen(sq), lconst(-n))), title, "the key does not have n coefficients")
        ip.oblige("degree", const(h.a.get("n")) == n, title, "the degree of the key is not the one of its header")
        i = k.i if isinstance(k, R) else None
        if sq is not None and len(sq.p) == 1 and sq.p[0][0] == "s" and sq.p[0][1].val is not None:
            # a list defined element by element: the same two conditions for an arbitrary index
            j = lsym(Sym("j", 0, n - 1)); g = s.fork(); v = ip.elem(sq.p[0][1], ladd(sq.p[0][2], j), g, "list"); msgs = []
            for c in s.pc:
                if c[0] == "all":
                    for g2 in g.assume(("or", cmk("ge", ladd(ladd(c[3], j, -1), lconst(-1))), cmk("ge", ladd(j, c[4], -1)), csub(c[1], {c[2]: j}, ip))): g = g2
            field(ip, g, v, j, msgs)
            ip.oblige("coefficients", not msgs, title, "; ".join(msgs)); continue
        ip.oblige("coefficients", isinstance(k, R) and s.zero(ladd(s.g.get("pos%d" % i, I(0)).lin, lconst(-n))) and not bad.get(i), title, "; ".join(sorted(set(bad.get(i, ["the coefficients are not those of the input"])))))
    ip.oblige("refusal", True, title)
    ip.oblige("header", seen == {b for a, b in sizes}, title, "keys of some documented degree are never accepted")
    return ip, rs, title

def y03(rep):
    rep.rules("decompress: every path for every byte string returns False or a list of exactly n coefficients and raises nothing", "each coefficient is the sign bit, seven low bits and unary part at its place, with no negative zero",
              "on acceptance every bit after the last coefficient is zero", "PublicKey.from_bytes: acceptance implies the length for the header, a known header, n fields of 14 bits each below q in order; every refusal is a ValueError")
    rep.trust(*TRUSTP)
    ip, rs, title = drive_decompress(); emit(rep, ip, title, ("never-raises", "result", "coefficients", "padding"), total=True)
    ip, rs, title = drive_pk(); emit(rep, ip, title, ("refusal", "header", "length", "count", "coefficients"), total=True)
