"""C01-C03, C10-C13, C15, C18: the NIST-style entry points (open / sign / keypair), analysed with the library's
functions replaced by contracts (sa/contracts.py)."""
import re
from sa.values import *
from sa import nistapi as na, contracts
from sa.contracts import Group
from sa.report import Broken

MEM = ("bounds", "null", "lifetime", "const-write", "shift", "div-by-zero")
TRUST = ("clang 18 -O0 IR of the current source (front end, sroa, instsimplify, dce)",
         "abstract interpreter sa/ (intervals, linear forms, provenance)",
         "contracts of the library functions, decided by C04-C09, C14, C16")

def sline(w):
    """location without the line number"""
    m = re.match(r"(.*?):[\d?]+ \((.*)\)$", w)
    return "%s:%s" % (m.group(1), m.group(2)) if m else w

def alarms(rep, r, kinds, rule):
    for k in kinds: rep.count(rule, r.ip.ob.get(k, 0))
    for (k, w), m in sorted(r.ip.alarms.items()):
        if k in kinds: rep.violate("%s:%s" % (rule, k), w, m, key="%s:%s" % (r.title.replace(" ", ""), sline(w)), counted=True)

def entry(rep, r):
    rep.unit(r.title, {"return states": len(r.rets), "contract calls": len(r.con.calls), "abstract steps": r.ip.steps})
    if len(r.con.calls) < 2: raise Broken("%s calls only %d library functions" % (r.title, len(r.con.calls)))

def groups(r):
    return {g.id: g for g in r.con.groups.values() if isinstance(g, Group)}

def evd(st): return {x[0]: x[1:] for x in st.ev}

def kind(a, k):
    """argument description a is the unscaled result of contract k"""
    return a is not None and a[0].kind == k and a[1] == 1

def byte_at(r, st, on, L):
    """range of the input byte at linear offset L of object on, as far as it was examined: (lo, hi, sym)"""
    o = st.mem[on]
    x = o.sym.get((lkey(L), 1))
    if x is None:
        for (k, n), y in o.sym.items():
            s = insym(y)
            if n == 1 and s is not None and st.prove_eq(s.org[1], L): x = y; break
    s = insym(x)
    if s is None: return None
    lo, hi = st.sbounds(s)
    return lo, hi, s

def insym(v):
    """symbol of an unmodified input byte"""
    if not isinstance(v, V) or v.lin is None or v.lin[0] or len(v.lin[1]) != 1: return None
    (s, c), = v.lin[1].items()
    return s if c == 1 and isinstance(s.org, tuple) and isinstance(s.org[0], str) and len(s.org) == 2 and isinstance(s.org[1], tuple) else None

def is_byte(r, st, on, L, val):
    b = byte_at(r, st, on, L)
    return b is not None and b[0] == b[1] == val

def norm(st, segs, names):
    """merge runs of single bytes of an input into ranges"""
    out = []
    def add(s):
        if s[0] == "range" and out and out[-1][0] == "range" and out[-1][1] == s[1] and \
           st.prove_eq(ladd(out[-1][2], out[-1][3]), s[2]):
            out[-1] = ("range", s[1], out[-1][2], ladd(out[-1][3], s[3]))
        else: out.append(s)
    for s in segs or ():
        if s[0] == "bytes":
            for x in s[1]:
                if isinstance(x, Sym) and isinstance(x.org, tuple) and x.org[0] in names:
                    add(("range", x.org[0], x.org[1], (1, {})))
                else:
                    if out and out[-1][0] == "bytes": out[-1] = ("bytes", out[-1][1] + (x,))
                    else: out.append(("bytes", (x,)))
        else: add(s)
    return out

def whole_range(st, segs, obj, a, n, names=None):
    """the hashed data is exactly obj[a, a+n)"""
    s = norm(st, segs, names or (obj,))
    return len(s) == 1 and s[0][0] == "range" and s[0][1] == obj and st.prove_eq(s[0][2], a) and st.prove_eq(s[0][3], n)

def segstr(segs):
    if segs is None: return "unknown"
    r = []
    for s in segs:
        if s[0] == "range": r.append("%s[%s, +%s)" % (s[1], lstr(s[2]), lstr(s[3])))
        elif s[0] == "bytes": r.append("%d byte(s)" % len(s[1]))
        else: r.append(s[0])
    return " || ".join(r) or "nothing"

def success(rep, r, rule):
    """the return states with value zero; a return value that is not a constant is a violation"""
    out = []; bad = 0
    for st, v in r.rets:
        c = na.retconst(st, v)
        if c is None:
            lo, hi = st.sr(v) if isinstance(v, V) else (0, 0)
            if lo <= 0 <= hi:
                rep.violate(rule, r.title, "a return value that is not known to be zero or non-zero (%r) after %s" % (v, fmt(st.ev)), key="%s:ret" % r.title)
            continue
        if c == 0: out.append(st)
    if not out and not any(na.retconst(st, v) is None for st, v in r.rets):
        rep.violate("succeeds", r.title, "no path of the function returns success, whatever it is given", key=r.title)
    return out

def fmt(ev): return ", ".join("%s %s" % (e[0], e[1] if len(e) == 2 else "") for e in ev) or "no library call"

# ------------------------------------------------------------------ openers
def opener_layout(r, st):
    """from the verdict of the final test: (hash group, key group, signature groups, offset and length of the signature field)"""
    d = {"hash": None, "key": None, "sig": [], "field": None, "why": None}
    ep = "epervier" in r.fn
    args = st.mon.get(("args", "verify_recover_epervier" if ep else "verify_raw"))
    if args is None: d["why"] = "the final test was not made or did not succeed"; return d
    if ep:
        d["hash"], a, b = args; d["sig"] = [a, b]
    else:
        d["hash"], a, d["key"] = args; d["sig"] = [a]
    if a is not None and a[0].kind in ("comp_decode", "comp_decode16") and a[1] == 1:
        obj, off, n = a[0].desc[:3]
        if obj == "sm" and off is not None: d["field"] = (ladd(off, lconst(-1)), n)
    return d

def open_checks(r, st):
    """yield (rule, ok, message) for a state in which the opener returned success"""
    ep = "epervier" in r.fn; zk = r.fn.startswith("zknox")
    dec = "comp_decode16" if zk else "comp_decode"
    ev = evd(st); S = (0, {r.smlen: 1})
    yield "key-header", is_byte(r, st, "pk", (0, {}), 9), "success although the public-key header was not compared with 0x09"
    d = opener_layout(r, st)
    fin = "verify_recover_epervier" if ep else "verify_raw"
    yield "final-test", d["why"] is None and ev.get(fin) == ("ok",), "success without a positive verdict of %s" % fin
    if d["why"]: return
    # key
    if ep:
        g = groups(r)
        keys = [x for x in g.values() if x.kind == "modq_decode16"]
        ok = False
        for e in st.ev:
            if e[0] == "alleq":
                a, b = g[e[1]], g[e[2]]
                if a.kind != "modq_decode16": a, b = b, a
                if a.kind == "modq_decode16" and b.kind == fin and e[3] == 512 and \
                   a.desc[0] == "pk" and leq(a.desc[1], lconst(1)) and leq(a.desc[2], lconst(1024)): ok = True
        yield "key-compared", ok, "success without comparing all 512 coefficients of the recovered key with the decoded public key"
    else:
        k = d["key"]
        if zk: base, scale = k, 4091
        else:
            base = k[0].desc[0] if k is not None and k[0].kind == "to_ntt_monty" and k[1] == 1 else None
            scale = 1
        ok = base is not None and base[0].kind == ("modq_decode16" if zk else "modq_decode") and base[0].desc[0] == "pk" and \
            leq(base[0].desc[1], lconst(1)) and leq(base[0].desc[2], lconst(1024 if zk else 896))
        yield "key-decoded", ok, "the key used by %s is not the one decoded from the whole public key (%s)" % (fin, k)
        if ok:
            yield "key-domain", base[1] == scale, "the key is given to %s in the wrong transform domain" % fin
    # signature
    if d["field"] is None:
        yield "signature-decoded", False, "the signature used by %s was not decoded from the signed message" % fin; return
    F, n = d["field"]
    sg = d["sig"]
    yield "signature-decoded", kind(sg[0], dec) and sg[0][0].desc[0] == "sm", "the signature used by %s is not what %s returned" % (fin, dec)
    yield "signature-header", is_byte(r, st, "sm", F, 0x29), "success although the byte before the signature data was not compared with 0x29"
    if ep:
        ok = kind(sg[1], dec) and sg[1][0].desc[0] == "sm" and st.prove_eq(sg[1][0].desc[1], ladd(F, lconst(1026)))
        yield "signature-decoded", ok, "the second half used by %s is not decoded from its place in the signature field" % fin
        yield "signature-header", is_byte(r, st, "sm", ladd(F, lconst(1025)), 0x29), "success although the header of the second half was not compared with 0x29"
        flen = lconst(2052)
    else: flen = ladd(n, lconst(1))
    yield "signature-length", st.prove_eq(ladd(F, flen), S), \
        "success although the decoded signature does not end at the end of the input (field at %s, decoded %s bytes)" % (lstr(F), lstr(flen))
    b0, b1 = byte_at(r, st, "sm", (0, {})), byte_at(r, st, "sm", (1, {}))
    decl = (0, {b0[2]: 256, b1[2]: 1}) if b0 and b1 else None
    yield "signature-length", decl is not None and st.prove_eq(decl, flen), \
        "success although the decoded length (%s) need not equal the declared length of the signature field" % lstr(flen)
    # hash
    h = d["hash"]
    want = "keccak" if r.eth else "shake"
    ok = kind(h, "hash_to_point")
    yield "hash", ok and h[0].desc[0] == want, "the point used by %s is not the output of the %s hash-to-point" % (fin, want)
    if ok:
        segs = h[0].desc[1]
        yield "hash", whole_range(st, segs, "sm", (2, {}), ladd(F, lconst(-2))), \
            "what is hashed is not nonce || message (hashed: %s)" % segstr(segs)

def c01(rep):
    rep.rules("every load, store and library call on the way through the openers stays inside the object it addresses; no shift count, divisor or pointer leaves its range; "
              "library decoders and verifiers alone, for every buffer length")
    rep.trust(*TRUST)
    rs = [na.opener(*c) for c in na.OPENERS] + [na.pkconv()]
    for r in rs:
        entry(rep, r)
        alarms(rep, r, MEM + ("degree",), "memory")
    from . import lib
    lib.c01_lib(rep)
    rep.need(rep.kinds.get("memory", 0), "memory obligations", 500)

def c02(rep):
    rep.rules("at every return of zero: header, full key decoding, signature header and exact length, hash input and final test all hold on the path; data handed to the final test is the data decoded")
    rep.trust(*TRUST)
    for c in na.OPENERS:
        r = na.opener(*c); entry(rep, r)
        for st in success(rep, r, "accept"):
            for rule, ok, msg in open_checks(r, st):
                rep.check(rule, ok, r.title, msg, key="%s:%s" % (r.title, msg[:60]))
        alarms(rep, r, ("uninit", "hash-order", "degree", "operand-range"), "data")
    rep.need(len(rep.units), "openers", 5)

def c03(rep):
    rep.rules("on return of non-zero neither message nor length was written; on zero, *mlen = smlen - 42 - field and the message bytes are sm[42..]")
    rep.trust(*TRUST)
    for c in na.OPENERS:
        r = na.opener(*c); entry(rep, r)
        ok0 = success(rep, r, "accept")
        for st, v in r.rets:
            if any(st is x for x in ok0): continue
            for o in ("m", "mlen"):
                rep.check("failure-untouched", not st.mem[o].written, r.title,
                          "%s is written although the call fails (after %s)" % (o, fmt(st.ev)), key="%s:%s" % (r.title, o))
        for st in ok0:
            d = opener_layout(r, st)
            x = st.mem["mlen"].cells.get(0)
            L = st.ulin(x[1]) if x is not None and x[0] == 8 and isinstance(x[1], V) else None
            if not rep.check("length-written", L is not None, r.title, "the message length is not written, or has no known value, on success", key=r.title): continue
            if not rep.check("layout", d["field"] is not None, r.title, "the signature field is not identified: %s" % d["why"], key=r.title): continue
            F = d["field"][0]
            rep.check("length", st.prove_eq(L, ladd(F, lconst(-42))), r.title,
                      "the reported message length is %s, not the number of message bytes %s" % (lstr(L), lstr(ladd(F, lconst(-42)))), key=r.title)
            o = st.mem["m"]
            ps = r.ip.pieces(st, o, (0, {}), L)
            ok = ps is not None
            if ok:
                for p in ps:
                    pr = p[3]
                    if pr is None or pr[0] != "sm" or not st.prove_eq(pr[1], lconst(42)): ok = False
            rep.check("content", ok, r.title, "the message buffer does not hold exactly the bytes sm[42..] (%s)" % (ps,), key=r.title)
        alarms(rep, r, ("uninit",), "data")
    rep.need(len(rep.units), "openers", 5)

# ------------------------------------------------------------------ signers
def sign_desc(r, st):
    """description of the lattice-signer call whose result is emitted"""
    g = [x for x in groups(r).values() if x.kind == "sign_s2"]
    return g

def content_seq(r, st, on, nl):
    return r.ip.pieces(st, st.mem[on], (0, {}), nl)

def sign_layout(r, st):
    """[(role, ...)] of the signed message, or an error text"""
    x = st.mem["smlen"].cells.get(0)
    L = st.ulin(x[1]) if x is not None and x[0] == 8 and isinstance(x[1], V) else None
    if L is None: return None, "the reported length has no known value"
    ps = content_seq(r, st, "sm", L)
    if ps is None: return None, "the content of the signed message up to the reported length is not known to be written"
    return (L, ps), None

def c10(rep):
    rep.rules("every write of the signers stays inside message length + documented overhead; at return of zero the output is sig_len(2, big-endian) || nonce || message || header || encoding, *smlen their sum")
    rep.trust(*TRUST)
    for c in na.SIGNERS:
        r = na.signer(*c); entry(rep, r)
        alarms(rep, r, MEM + ("uninit",), "memory")
        G = groups(r)
        ep = "epervier" in r.fn; zk = r.fn.startswith("zknox")
        T = r.title
        for st in success(rep, r, "accept"):
            lay, why = sign_layout(r, st)
            if not rep.check("output-known", lay is not None, T, str(why), key=T): continue
            L, ps = lay
            M = (0, {r.mlen: 1})
            # expected sequence
            it = [p for p in ps]
            def run(p): return p[3][0] if p[3] is not None else None
            want = ["len", "nonce", "m", "hdr", "enc"] + (["hdr", "enc", "hint"] if ep else [])
            pos = 2
            hl = it[:2]
            def grp(p):
                k = run(p)
                return G.get(k[1]) if isinstance(k, tuple) and k[0] == "grp" else None
            ok = len(it) >= 5 and all(leq(p[1], lconst(1)) for p in hl) and leq(it[1][0], lconst(1))
            if not rep.check("layout", ok, T, "the output does not start with a 2-byte length", key=T + ":len"): continue
            i = 2
            # nonce
            g = grp(it[i]); ok = g is not None and g.kind == "random" and leq(it[i][1], lconst(40)) and leq(it[i][3][1], lconst(-2)) and g.n == 40
            rep.check("layout", ok, T, "bytes 2..41 are not the 40 nonce bytes drawn for this signature", key=T + ":nonce"); i += 1
            # message
            ok = i < len(it) and it[i][3] is not None and it[i][3][0] == "m" and leq(it[i][3][1], lconst(-42)) and st.prove_eq(it[i][1], M)
            if not rep.check("layout", ok, T, "the nonce is not followed by the whole message", key=T + ":m"): continue
            i += 1
            start = it[i][0] if i < len(it) else None
            for part in range(2 if ep else 1):
                ok = i < len(it) and leq(it[i][1], lconst(1)) and isinstance(it[i][2], V) and it[i][2].const() and it[i][2].cval() == 0x29
                if not rep.check("layout", ok, T, "the signature data is not preceded by the header byte 0x29", key=T + ":hdr%d" % part): break
                i += 1
                if not rep.check("layout", i < len(it), T, "no signature data", key=T + ":enc%d" % part): break
                p = it[i]; i += 1
                name = run(p); src = None; full = False
                if isinstance(name, str) and name in getattr(r.con, "enc", {}):
                    k, src = r.con.enc[name]
                    full = st.prove_eq(p[1], st.mem[name].size) and st.prove_eq(ladd(p[0], p[3][1]), lconst(0))
                elif grp(p) is not None:
                    g = grp(p); k = g.kind; src = g.desc[0]
                    full = leq(p[1], lconst(g.n)) and st.prove_eq(ladd(p[0], p[3][1]), lconst(0))
                else: k = None
                exp = ("comp_encode16" if zk else "comp_encode")
                s = ("sign_s1" if part == 0 else "sign_s2") if ep else "sign_s2"
                rep.check("layout", k == exp and kind(src, s) and full, T,
                          "the signature data is not the whole output of %s on the signer's vector (%s of %s)" % (exp, k, src), key=T + ":enc%d" % part)
            else:
                if ep:
                    ok = i + 2 == len(it) and all(leq(p[1], lconst(1)) for p in it[i:])
                    if ok:
                        hi, lo = it[i][2], it[i + 1][2]
                        hs = [g for g in G.values() if g.kind == "hint" and kind(g.desc[0], "sign_s2")]
                        ok = bool(hs) and be16(st, hi, lo, (0, {hs[0].syms[0]: 1}))
                    rep.check("layout", ok, T, "the signature field does not end with the 2-byte big-endian hint", key=T + ":hint")
                    i += 2
                rep.check("layout", i == len(it), T, "there is unexpected data behind the signature", key=T + ":end")
                if start is not None:
                    fl = ladd(L, start, -1)
                    rep.check("layout", be16(st, it[0][2], it[1][2], fl), T,
                              "the first two bytes are not the big-endian length %s of the signature field" % lstr(fl), key=T + ":siglen")
    rep.need(len(rep.units), "signers", 5)

def be16(st, hi, lo, L):
    """hi, lo are the big-endian bytes of the integer L"""
    if not (isinstance(hi, V) and isinstance(lo, V)): return False
    if not L[1]: return hi.const() and lo.const() and hi.cval() * 256 + lo.cval() == L[0]
    ok = lo.lin is not None and lo.lm >= 8 and lsub_eq(lo.lin, L, 8)
    l = hi.lin
    if not ok or l is None or l[0] or len(l[1]) != 1: return False
    (s, c), = l[1].items()
    if c != 1: return False
    if isinstance(s.org, tuple) and s.org[0] == "shr": return s.org[2] == 8 and st.prove_eq(s.org[1], L)
    return st.prove(ladd(L, (0, {s: 256}), -1)) and st.prove(ladd(ladd((0, {s: 256}), lconst(255)), L, -1))

def c11(rep):
    rep.rules("at every return of zero the key header matched, f, g, F were decoded contiguously from the whole key, G was completed from them, the hash point and these polynomials went into the lattice signer and the encoder accepted its result; every other return leaves output and length unwritten; the lattice signer returns only after the norm test")
    rep.trust(*TRUST)
    for c in na.SIGNERS:
        r = na.signer(*c); entry(rep, r)
        T = r.title; ep = "epervier" in r.fn
        ok0 = success(rep, r, "accept")
        for st, v in r.rets:
            if any(st is x for x in ok0): continue
            for o in ("sm", "smlen"):
                rep.check("failure-untouched", not st.mem[o].written, T, "%s is written although the call fails (after %s)" % (o, fmt(st.ev)), key="%s:%s" % (T, o))
        for st in ok0:
            ev = evd(st)
            rep.check("key-header", is_byte(r, st, "sk", (0, {}), 0x59), T, "success although the private-key header was not compared with 0x59", key=T)
            need = ["trim_i8_decode", "complete_private", "sign_dyn", "comp_encode16" if T.startswith("zknox") else "comp_encode"]
            if ep: need.append("is_invertible")
            for k in need:
                rep.check("step", ev.get(k) == ("ok",), T, "success without a successful %s" % k, key="%s:%s" % (T, k))
            s2 = [g for g in groups(r).values() if g.kind == "sign_s2"]
            rep.check("signer", len(s2) == 1, T, "%d different calls of the lattice signer" % len(s2), key=T)
            for g in s2:
                (f, gg, F, GG, hm), rng = g.desc
                pos = lconst(1); ok = True
                for p in (f, gg, F):
                    if not (kind(p, "trim_i8_decode") and p[0].desc[0] == "sk" and leq(p[0].desc[1], pos)): ok = False; break
                    pos = ladd(pos, p[0].desc[2])
                rep.check("key-decoded", ok and leq(pos, lconst(na.SKB)), T, "f, g, F given to the signer are not decoded contiguously from the whole private key", key=T)
                rep.check("key-completed", kind(GG, "complete_private") and GG[0].desc == (f, gg, F), T, "G given to the signer was not completed from f, g, F", key=T)
                rep.check("hash", kind(hm, "hash_to_point"), T, "the point signed is not the output of hash-to-point", key=T)
                if kind(hm, "hash_to_point"):
                    segs = norm(st, hm[0].desc[1], ("m",))
                    ok = len(segs) == 2 and segs[0][0] == "bytes" and len(segs[0][1]) == 40 and segs[1][0] == "range" and segs[1][1] == "m" and \
                        leq(segs[1][2], lconst(0)) and st.prove_eq(segs[1][3], (0, {r.mlen: 1}))
                    rep.check("hash", ok, T, "what is hashed is not nonce || whole message (%s)" % segstr(segs), key=T + ":in")
                    rep.check("hash", hm[0].desc[0] == ("keccak" if r.eth else "shake"), T, "wrong hash for this build", key=T + ":kind")
            if ep:
                a = st.mon.get(("args", "is_invertible"))
                rep.check("invertible", a is not None and kind(a[0], "sign_s2"), T, "the invertibility test was not made on the vector that is emitted", key=T)
        alarms(rep, r, ("degree", "operand-range", "uninit", "hash-order"), "data")
    from . import lib
    lib.sign_loop(rep)
    rep.need(len(rep.units), "signers", 5)

def rand_run(seg, G):
    """the random group whose bytes 0..n-1 are exactly this segment"""
    if seg is None or seg[0] != "bytes" or not seg[1]: return None
    s = seg[1][0]
    g = s.org[0] if isinstance(s, Sym) and isinstance(s.org, tuple) and isinstance(s.org[0], Group) else None
    if g is None or g.kind != "random" or len(seg[1]) != g.n: return None
    if any(x is not y for x, y in zip(seg[1], g.syms)): return None
    return g

def c12(rep):
    rep.rules("nonce hashed = nonce emitted = all 40 bytes of one draw; sampler and key generators absorb all 48 bytes of another draw (or the whole caller seed) and are flipped before use")
    rep.trust(*TRUST)
    for c in na.SIGNERS:
        r = na.signer(*c); entry(rep, r); G = groups(r); T = r.title
        for st in success(rep, r, "accept"):
            lay, why = sign_layout(r, st)
            emitted = None
            if lay is not None:
                for p in lay[1]:
                    if leq(p[0], lconst(2)) and p[3] is not None and isinstance(p[3][0], tuple):
                        g = G.get(p[3][0][1])
                        if g is not None and g.kind == "random" and g.n == 40 and leq(p[1], lconst(40)) and leq(p[3][1], lconst(-2)): emitted = g
            rep.check("nonce-emitted", emitted is not None, T, "the nonce emitted is not one complete 40-byte draw from the random source", key=T)
            for g in [x for x in G.values() if x.kind == "sign_s2"]:
                (f, gg, F, GG, hm), rng = g.desc
                hs = hm[0].desc[1] if kind(hm, "hash_to_point") else None
                ng = None
                if hs and hs[0][0] == "bytes" and len(hs[0][1]) >= 40:
                    ng = rand_run(("bytes", hs[0][1][:40]), G)
                rep.check("nonce-hashed", ng is not None and ng is emitted, T, "the nonce hashed is not byte for byte the nonce emitted (%s)" % segstr(hs), key=T)
                sg = rand_run(rng[0], G) if rng and len(rng) == 1 else None
                rep.check("sampler-seed", sg is not None and sg.n == 48, T, "the sampler generator does not absorb exactly one complete 48-byte draw (%s)" % segstr(rng), key=T)
                rep.check("separate", sg is None or sg is not ng, T, "nonce and sampler seed are the same draw", key=T)
        alarms(rep, r, ("hash-order",), "order")
    for c in na.KEYGENS:
        r = na.keypair(*c); entry(rep, r); G = groups(r); T = r.title
        kg = [g for g in G.values() if g.kind.startswith("keygen_")]
        if not kg: raise Broken(T + ": key generation is never called")
        for g in kg:
            rng = g.desc[0]
            if r.seeded:
                st = r.rets[0][0]
                ok = rng is not None and any(whole_range(st, rng, "seed", (0, {}), (0, {r.seedlen: 1})) for st, v in r.rets)
                rep.check("caller-seed", ok, T, "key generation does not absorb the whole seed (%s)" % segstr(rng), key=T)
            else:
                sg = rand_run(rng[0], G) if rng and len(rng) == 1 else None
                rep.check("keygen-seed", sg is not None and sg.n == 48, T, "key generation does not absorb one complete 48-byte draw (%s)" % segstr(rng), key=T)
        if r.seeded:
            for st, v in r.rets:
                if na.retconst(st, v) == 0:
                    rep.check("seed-size", st.sbounds(r.seedlen)[0] >= 32, T, "a seed shorter than 32 bytes is accepted", key=T)
        alarms(rep, r, ("hash-order", "uninit"), "order")
    rep.need(len(rep.units), "signers and key generators", 9)

def seed_labels(r):
    """labels of the draws that seed generators (not the nonce)"""
    G = groups(r); m = 0
    for g in G.values():
        if g.kind in ("sign_s2", "keygen_h", "keygen_f"):
            rng = g.desc[-1] if g.kind == "sign_s2" else g.desc[0]
            for s in rng or ():
                if s[0] == "bytes":
                    for x in s[1]:
                        if isinstance(x, Sym): m |= x.lab
    return m

def c13(rep):
    rep.rules("explicit-flow labels: no byte of the signed message or its length carries a private-key, sampler-seed or generator-state label except through the lattice signer's vector; no public-key byte carries a seed label except through keygen's public polynomial; no uninitialised stack byte is emitted")
    rep.trust(*TRUST)
    rep.assume.append("implicit flows (control dependence) are not tracked")
    for c in na.SIGNERS:
        r = na.signer(*c); entry(rep, r); T = r.title
        bad = contracts.L_SECRET | contracts.L_SEED | seed_labels(r)
        if not seed_labels(r): rep.violate("seed-label", T, "the sampler seed does not come from the random source", key=T)
        for st, v in r.rets:
            for o in ("sm", "smlen"):
                lab = r.ip.range_lab(st.mem[o])
                rep.check("no-secret-in-output", not lab & bad, T, "%s holds data derived from %s without passing the lattice signer" % (
                    o, "the private key" if lab & contracts.L_SECRET else "the sampler seed"), key="%s:%s" % (T, o))
        for name, L, n, v, w, ev in r.stores:
            lab = v.lab if isinstance(v, V) else v[1].lab if isinstance(v, tuple) and v[0] == "group" else 0
            rep.check("no-secret-store", not lab & bad, w, "a byte of %s derived from a secret is written" % name, key="%s:%s" % (T, name))
        alarms(rep, r, ("uninit",), "uninit")
    for c in na.KEYGENS:
        r = na.keypair(*c); entry(rep, r); T = r.title
        bad = contracts.L_SECRET | contracts.L_SEED | seed_labels(r)
        for st, v in r.rets:
            lab = r.ip.range_lab(st.mem["pk"])
            rep.check("no-secret-in-key", not lab & bad, T, "the public key holds data derived from the seed or the private polynomials", key=T)
        for name, L, n, v, w, ev in r.stores:
            if name != "pk": continue
            lab = v.lab if isinstance(v, V) else v[1].lab if isinstance(v, tuple) and v[0] == "group" else 0
            rep.check("no-secret-store", not lab & bad, w, "a byte of the public key derived from a secret is written", key="%s:%s" % (T, name))
        alarms(rep, r, ("uninit",), "uninit")
    rep.need(len(rep.units), "signers and key generators", 9)

def c15(rep):
    rep.rules("on every path on which an absorption into the hash generator failed, the entry point returns non-zero; no accepted or signed hash lost data")
    rep.trust(*TRUST)
    n = 0
    for lst, fn in ((na.OPENERS, na.opener), (na.SIGNERS, na.signer), (na.KEYGENS, na.keypair)):
        for c in lst:
            r = fn(*c); entry(rep, r); T = r.title
            ok0 = success(rep, r, "accept")
            n += sum(1 for x in r.con.calls if x[0].endswith("keccak256_inject"))
            for st, v in r.rets:
                z = any(st is x for x in ok0)
                failed = ("absorb", "fail") in st.ev
                if failed: rep.check("absorb-error-returned", not z, T, "returns success although the hash generator refused data (after %s)" % fmt(st.ev), key=T)
                if z:
                    drop = any(isinstance(k, tuple) and k[0] == "hash" and isinstance(m, tuple) and any(s[0] == "dropped" for s in m[2]) for k, m in st.mon.items())
                    rep.check("nothing-dropped", not drop, T, "success although a part of the input was not hashed", key=T + ":drop")
    rep.need(n, "call sites of the fallible absorb function", 4)

def c18(rep):
    rep.rules("at return of zero the public key is header || encoding of the generated public polynomial (in NTT form for the 16-bit format) and the private key header || f || g || F, all from one generation; otherwise non-zero is returned; openers convert from the same form; the in-place conversion keeps the key")
    rep.trust(*TRUST)
    for c in na.KEYGENS:
        r = na.keypair(*c); entry(rep, r); T = r.title; G = groups(r)
        zk = r.fn.startswith("zknox")
        alarms(rep, r, MEM + ("uninit", "degree", "operand-range", "hash-order"), "memory")
        for st in success(rep, r, "accept"):
            ps = r.ip.pieces(st, st.mem["pk"], (0, {}), lconst(r.pkb))
            def grp(p):
                k = p[3][0] if p[3] is not None else None
                g = G.get(k[1]) if isinstance(k, tuple) and k[0] == "grp" else None
                return g if g is not None and leq(p[3][1], lconst(-p[0][0])) and leq(p[1], lconst(g.n)) else None
            ok = ps is not None and len(ps) == 2 and leq(ps[0][1], lconst(1)) and ps[0][2].const() and ps[0][2].cval() == 9
            rep.check("public-key", ok, T, "the public key is not header byte 0x09 and one encoded polynomial (%s)" % (ps and len(ps)), key=T)
            H = None
            if ok:
                g = grp(ps[1]); k = "modq_encode16" if zk else "modq_encode"
                src = g.desc[0] if g is not None and g.kind == k else None
                rep.check("public-key", src is not None, T, "the body of the public key is not the output of %s" % k, key=T + ":enc")
                if src is not None:
                    if zk:
                        H = src[0].desc[0] if src[0].kind == "to_ntt" and src[1] == 1 else None
                        rep.check("key-domain", kind(H, "keygen_h"), T, "the 16-bit public key is not the generated polynomial in plain NTT form (%s)" % (src,), key=T)
                    else:
                        H = src
                        rep.check("key-domain", kind(H, "keygen_h"), T, "the public key is not the generated polynomial in coefficient form (%s)" % (src,), key=T)
            ps = r.ip.pieces(st, st.mem["sk"], (0, {}), lconst(na.SKB))
            ok = ps is not None and len(ps) == 4 and leq(ps[0][1], lconst(1)) and ps[0][2].const() and ps[0][2].cval() == 0x59
            if ok:
                for p, nm in zip(ps[1:], "fgF"):
                    g = grp(p)
                    if g is None or g.kind != "trim_i8_encode" or not kind(g.desc[0], "keygen_" + nm): ok = False
                    elif H is not None and g.desc[0][0].desc != H[0].desc: ok = False
            rep.check("private-key", ok, T, "the private key is not header byte 0x59 followed by the encodings of f, g, F of the same generation", key=T)
        for st, v in r.rets:
            if any(e[1] == "fail" for e in st.ev if len(e) == 2):
                rep.check("failure-reported", na.retconst(st, v) not in (None, 0), T, "success although %s" % fmt(st.ev), key=T + ":fail")
    for c in na.OPENERS:
        r = na.opener(*c); entry(rep, r)
        for st in success(rep, r, "accept"):
            for rule, ok, msg in open_checks(r, st):
                if rule in ("key-domain", "key-decoded", "key-compared"): rep.check(rule, ok, r.title, msg, key=r.title)
    r = na.pkconv(); rep.unit(r.title, {"return states": len(r.rets)}); G = groups(r)
    for st in success(rep, r, "accept"):
        ps = r.ip.pieces(st, st.mem["pk"], (0, {}), lconst(na.ZPKB))
        ok = False
        if not st.mem["pk"].written: ok = True
        elif ps is not None and len(ps) == 2 and ps[0][2].const() and ps[0][2].cval() == 9 and ps[1][3] is not None:
            k = ps[1][3][0]
            g = G.get(k[1]) if isinstance(k, tuple) and k[0] == "grp" else None
            ok = g is not None and g.kind == "modq_encode16" and kind(g.desc[0], "modq_decode16") and g.desc[0][0].desc[0] == "pk" and \
                leq(g.desc[0][0].desc[1], lconst(1)) and leq(ps[1][1], lconst(1024)) and leq(ps[1][3][1], lconst(-1))
        rep.check("conversion", ok, r.title, "the conversion to recovery form does not keep the key polynomial", key=r.title)
    alarms(rep, r, MEM + ("uninit", "degree", "operand-range"), "memory")
    rep.need(len(rep.units), "key functions", 10)
