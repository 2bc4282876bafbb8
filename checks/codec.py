"""C04-C06: the polynomial decoders and encoders of codec.c, decided by bit provenance: for every bit of every result the
interpreter knows from which input bit it is copied, for all inputs at once."""
from sa.values import *
from sa.state import *
from sa.interp import Interp, GiveUp
MEM = ("bounds", "null", "lifetime", "const-write", "shift", "div-by-zero")
from sa import cbuild
from sa.report import Broken

TRUST = ("clang 18 -O0 IR of the current source (front end, sroa, instsimplify, dce)",
         "abstract interpreter sa/ (intervals, linear forms, bit provenance)")
PFX = "falcon_inner_"
CAP = 1 << 40

def mem_alarms(rep, ip, title, rule="memory", kinds=MEM + ("uninit",)):
    for k in kinds: rep.count(rule, ip.ob.get(k, 0))
    for (k, w), m in sorted(ip.alarms.items()):
        if k in kinds: rep.violate("%s:%s" % (rule, k), w, m, key="%s:%s" % (title, w.split(" ")[-1]), counted=True)

def fn(name):
    m = cbuild.unit("codec.c")
    f = m.funcs.get(PFX + name)
    if f is None: raise Broken("codec.c: %s not found" % name)
    return m, f

def signed_input(w, name="x"):
    def f(ip, st, o, L, size):
        if o.name != name or size != w: return None
        H = 1 << (8 * w - 1)
        s = Sym("x[%s]" % lstr(L), -H, H - 1, 0, (name, L))
        return V(8 * w, -H, H - 1, (0, {s: 1}), 8 * w, tuple((s, i) for i in range(8 * w)), None, 0)
    return f

# ------------------------------------------------------------------ bits
def bitfacts(st):
    """known bits, including those of symbols that name a word with known bits and have become constant"""
    bf = dict(st.bf)
    for s, (lo, hi) in st.sb.items():
        if lo == hi and isinstance(s.org, tuple) and s.org[0] == "val" and s.org[1] is not None:
            for i, b in enumerate(s.org[1]):
                if b.__class__ is tuple: bf.setdefault(b, (lo >> i) & 1)
        elif lo == hi and isinstance(s.org, tuple) and isinstance(s.org[0], str) and len(s.org) == 2 and isinstance(s.org[1], tuple) and s.org[0] not in ("val", "lin", "shr"):
            for i in range(16): bf.setdefault((s, i), (lo >> i) & 1)
    return bf

def canon(b, obj, bf):
    """('in', byte, bit) for a bit of the input object, 0/1 for a known bit, the bit itself otherwise"""
    n = 0
    while b.__class__ is tuple and n < 8:
        if b in bf: return bf[b]
        s = b[0]
        if not isinstance(s, Sym): return b
        if isinstance(s.org, tuple) and s.org[0] == obj and isinstance(s.org[1], tuple) and not s.org[1][1]:
            return ("in", s.org[1][0] + b[1] // 8, b[1] % 8)
        if isinstance(s.org, tuple) and s.org[0] == "val" and s.org[1] is not None and b[1] < len(s.org[1]):
            b = s.org[1][b[1]]; n += 1; continue
        return b
    return b

def inbits(st, obj, bf):
    """(byte, bit) -> 0/1 for the known bits of the input object"""
    out = {}
    for b, v in bf.items():
        c = canon(b, obj, {})
        if c.__class__ is tuple and c[0] == "in": out[(c[1], c[2])] = v
    return out

def value_bits(v, obj, bf):
    """canonical bits of a value, or None"""
    if v.lo == v.hi: return [(v.cval() >> i) & 1 for i in range(v.w)]
    x = v.bits
    if x is None and v.lin is not None and v.lin[0] == 0 and len(v.lin[1]) == 1 and v.lm == v.w:
        (s, c), = v.lin[1].items()
        if c == 1 and isinstance(s.org, tuple) and s.org[0] == "val" and s.org[1] is not None and v.lo >= 0: x = s.org[1][:v.w]
    if x is None: return None
    return [canon(b, obj, bf) for b in x]

def field(u, b, known):
    """bits (least significant first) of the u-th b-bit big-endian field of the input"""
    out = []
    for j in range(b):
        p = u * b + (b - 1 - j)
        k = (p // 8, 7 - p % 8)
        out.append(known.get(k, ("in",) + k))
    return out

def show(b):
    return "".join(str(x) if x in (0, 1) else "?" if x is None else "in[%d].%d " % x[1:] if x[0] == "in" else "~" for x in reversed(b))

# ------------------------------------------------------------------ decoders
def run_decoder(name, logn, w, bits=None, paths=False):
    n = 1 << logn
    m, f = fn(name)
    ip = Interp([m], track_bits=True, memo=False); ip.paths = paths; ip.maxpath = 40000
    st = State()
    s = Sym("max_in", 0, CAP)
    st.mem["x"] = Obj("x", n * w, "uninit"); st.mem["in"] = Obj("in", (0, {s: 1}), "input")
    args = [P("x", C(64, 0)), C(32, logn)] + ([C(32, bits)] if bits else []) + [P("in", C(64, 0)), V(64, 0, CAP, (0, {s: 1}), 64)]
    rs = ip.run(f, args, st)
    return ip, rs, s

def split_rets(rep, rs, title):
    """(states with a non-zero constant return, ok) ; any other return value must be zero"""
    ok = []
    for st, r in rs:
        lo, hi = st.rng(r)
        if lo == hi == 0: continue
        if lo != hi and lo <= 0 <= hi:
            rep.violate("return", title, "a return value that is neither zero nor a length (%r)" % r, key=title)
            continue
        ok.append((st, r, lo, hi))
    return ok

def cells(st, n, w):
    o = st.mem["x"]; out = []
    for u in range(n):
        c = o.cells.get(u * w)
        out.append(c[1] if c is not None and c[0] == w and isinstance(c[1], V) else None)
    return out

def fixed_decoder(rep, name, logn, w, b, kind, bits=None):
    """kind: 'modq' (unsigned below q), 'trim' (signed without the minimum), 'sig16' (residue, centred)"""
    n = 1 << logn; L = (n * b + 7) // 8
    title = "%s(logn=%d%s)" % (name, logn, ", bits=%d" % bits if bits else "")
    ip, rs, s = run_decoder(name, logn, w, bits)
    mem_alarms(rep, ip, title)
    ok = split_rets(rep, rs, title)
    rep.unit(title, {"return states": len(rs), "accepting": len(ok), "coefficients": n, "abstract steps": ip.steps})
    if not ok:
        rep.violate("accepts", title, "no input is accepted", key=title); return
    full = {}
    for st, r, lo, hi in ok:
        rep.check("return", lo == hi == L, title, "success reports %d..%d instead of the %d bytes of the encoding" % (lo, hi, L), key=title)
        a, z = st.sbounds(s)
        rep.check("truncated", a >= L, title, "accepts with only %d of %d bytes" % (a, L), key=title)
        rep.check("capacity", a <= L, title, "refuses an input of exactly %d bytes" % L, key=title)
        bf = bitfacts(st); known = inbits(st, "in", bf)
        for i in range(n * b, L * 8):
            k = (i // 8, 7 - i % 8)
            rep.check("padding", known.get(k) == 0, title, "accepts a set padding bit %d of byte %d" % (k[1], k[0]), key=title)
        for u, v in enumerate(cells(st, n, w)):
            if not rep.check("written", v is not None, title, "coefficient %d is not written on success" % u, key=title): continue
            lo, hi = st.rng(v)
            # the representative may be the unsigned one
            if kind != "modq":
                lo, hi = st.sr(v)
            f = field(u, b, known)
            c0, c1 = full.get(u, (1 << 20, -1 << 20)); full[u] = (min(lo, c0), max(hi, c1))
            if kind == "sig16":
                cq = st.getcq(v)
                good = False
                if cq is not None and cq[0] == 0 and len(cq[1]) == 1:
                    (y, k), = cq[1].items()
                    if k % Q == 1:
                        yb = [canon((y, i), "in", bf) for i in range(16)]
                        y0, y1 = st.sbounds(y)
                        good = yb == f and y0 >= 0 and y1 < Q
                if not good and lo >= 0: good = value_bits(v, "in", bf) == f
                rep.check("field", good, title, "coefficient %d is not congruent to its own field (%r)" % (u, v), key=title)
                rep.check("range", hi - lo < Q and lo >= -Q and hi < Q, title, "coefficient %d lies in [%d, %d]: not one representative per residue" % (u, lo, hi), key=title)
                continue
            got = value_bits(v, "in", bf)
            want = f + [0 if kind == "modq" else f[-1]] * (8 * w - b)
            rep.check("field", got == want, title, "coefficient %d is %s, not its field %s" % (u, show(got) if got else "of unknown origin", show(want)), key=title)
            top = Q - 1 if kind == "modq" else (1 << (b - 1)) - 1
            bot = 0 if kind == "modq" else -top
            rep.check("range", lo >= bot and hi <= top, title, "coefficient %d may be in [%d, %d] instead of [%d, %d]" % (u, lo, hi, bot, top), key=title)
    for u, (lo, hi) in full.items():
        top = Q - 1 if kind == "modq" else (1 << (b - 1)) - 1 if kind == "trim" else 2047
        bot = 0 if kind == "modq" else -top
        rep.check("complete", lo <= bot and hi >= top, title, "coefficient %d is limited to [%d, %d]: values the encoder writes are refused or changed" % (u, lo, hi), key=title)

def comp_decoder(rep, logn):
    """path-exhaustive: every accepting path of the variable-length decoder against the format"""
    n = 1 << logn; name = "comp_decode"
    title = "comp_decode(logn=%d), all paths" % logn
    ip, rs, s = run_decoder(name, logn, 2, paths=True)
    mem_alarms(rep, ip, title)
    ok = split_rets(rep, rs, title)
    rep.unit(title, {"paths": len(rs), "accepting": len(ok), "abstract steps": ip.steps})
    if not ok: rep.violate("accepts", title, "no input is accepted", key=title); return
    seen = {}
    for st, r, lo, hi in ok:
        bf = bitfacts(st); known = inbits(st, "in", bf)
        pos = 0; combo = []; rng = []; bad = None
        for u, v in enumerate(cells(st, n, 2)):
            if v is None: bad = ("written", "coefficient %d is not written" % u); break
            sg = known.get((pos // 8, 7 - pos % 8))
            low = [("in", (pos + 7 - j) // 8, 7 - (pos + 7 - j) % 8) for j in range(7)]
            low = [known.get(x[1:], x) for x in low]
            p = pos + 8; k = 0
            while True:
                x = known.get((p // 8, 7 - p % 8)); p += 1
                if x is None: bad = ("unary", "the unary part of coefficient %d is not decided by input bit %d" % (u, p - 1)); break
                if x == 1: break
                k += 1
                if k > 15: bad = ("range", "coefficient %d takes more than 15 zeros: a magnitude above 2047 is accepted" % u); break
            if bad: break
            pos = p
            vlo, vhi = st.sr(v)
            if sg is None:
                # magnitude zero: the sign bit need not be examined only if it is refused later; it is part of the encoding
                bad = ("sign", "the sign bit of coefficient %d is not examined" % u); break
            if sg == 1 and k == 0 and vlo <= 0 <= vhi: bad = ("negative-zero", "coefficient %d: minus zero is accepted" % u); break
            if not mag_ok(st, v, sg, low, k, bf):
                bad = ("field", "coefficient %d is %r, not %s(%d + low 7 bits)" % (u, v, "-" if sg else "", 128 * k)); break
            full = (128 * k, 128 * k + 127) if not sg else (-(128 * k + 127), -max(128 * k, 1))
            if vlo < full[0] or vhi > full[1]: bad = ("range", "coefficient %d lies in [%d, %d] instead of [%d, %d]" % (u, vlo, vhi, full[0], full[1])); break
            combo.append((sg, k)); rng.append((vlo, vhi, full, tuple(x for x in low)))
        if bad is None:
            L = (pos + 7) // 8
            if (lo, hi) != (L, L): bad = ("return", "the reported length %d..%d is not the %d bytes consumed" % (lo, hi, L))
            elif st.sbounds(s)[0] < L: bad = ("truncated", "accepts with %d of %d bytes" % (st.sbounds(s)[0], L))
            elif st.sbounds(s)[0] > L: bad = ("capacity", "refuses an input of exactly %d bytes" % L)
            else:
                for i in range(pos, 8 * L):
                    if known.get((i // 8, 7 - i % 8)) != 0: bad = ("padding", "a set padding bit in the last byte is accepted"); break
        if bad is None: seen.setdefault(tuple(combo), []).append(rng)
        for rule in ("field", "unary", "negative-zero", "return", "padding", "truncated"):
            rep.count(rule)
        if bad: rep.violate(bad[0], title, bad[1], key="comp_decode", counted=True)
    want = 32 ** n
    rep.check("complete", len(seen) == want, title, "%d of the %d combinations of signs and magnitudes have an accepting path" % (len(seen), want), key="comp_decode")
    # the accepting paths of one combination must cover all magnitudes of its class
    for combo, rs_ in sorted(seen.items()):
        vol = 0; tot = 1
        for rng in rs_:
            x = 1
            for lo, hi, full, low in rng: x *= hi - lo + 1
            vol += x
        for lo, hi, full, low in rs_[0]: tot *= full[1] - full[0] + 1
        rep.check("complete", vol >= tot, title, "class %s: only %d of %d polynomials have an accepting path" % (combo, vol, tot), key="comp_decode:part")

def mag_ok(st, v, sg, low, k, bf):
    """v == (sg ? -1 : 1) * (128*k + low)"""
    v16 = v
    if v.lin is not None and len(v.lin[1]) == 1 and v.lm >= 12:
        (t, c), = v.lin[1].items()
        M = 1 << v.lm
        c = c % M; c = c - M if c > M // 2 else c
        base = v.lin[0] % M; base = base - M if base > M // 2 else base
        sgn = -1 if sg else 1
        if c == sgn:
            tb = None
            if isinstance(t.org, tuple) and t.org[0] == "val" and t.org[1] is not None:
                tb = [canon(b, "in", bf) for b in t.org[1]]
            elif isinstance(t.org, tuple) and t.org[0] == "in":
                tb = [canon((t, i), "in", bf) for i in range(8)]
            if tb is not None:
                tail = tb[7:]
                if tb[:7] == low and all(x in (0, 1) for x in tail):
                    off = sum(x << (7 + i) for i, x in enumerate(tail))
                    if base + sgn * off == sgn * 128 * k: return True
    got = value_bits(v, "in", bf)
    if got is not None and not sg:
        return got == low + [(k >> i) & 1 for i in range(9)]
    if v.lo == v.hi and sg and all(x in (0, 1) for x in low):
        return st.sr(v)[0] == -(128 * k + sum(x << i for i, x in enumerate(low)))
    return False

def comp_decode_full(rep, logn):
    """joined run at full size: range and completeness of the output, consumed length, memory"""
    n = 1 << logn
    m, f = fn("comp_decode")
    title = "comp_decode(logn=%d)" % logn
    ip = Interp([m], memo=False)
    st = State(); s = Sym("max_in", 0, CAP)
    st.mem["x"] = Obj("x", n * 2, "uninit"); st.mem["in"] = Obj("in", (0, {s: 1}), "input")
    rs = ip.run(f, [P("x", C(64, 0)), C(32, logn), P("in", C(64, 0)), V(64, 0, CAP, (0, {s: 1}), 64)], st)
    mem_alarms(rep, ip, title)
    rep.unit(title, {"return states": len(rs), "abstract steps": ip.steps})
    ok = [(st, r) for st, r in rs if st.rng(r) != (0, 0)]
    if not ok: rep.violate("accepts", title, "no input is accepted", key=title); return
    for st, r in ok:
        lo, hi = st.rng(r)
        if lo == 0: rep.violate("return", title, "a return value that is neither zero nor a length (%r)" % r, key=title); continue
        rep.check("return", lo > n, title, "fewer bytes than %d coefficients need are reported (%d)" % (n, lo), key=title)
        u = st.ulin(r)
        rep.check("truncated", u is not None and st.prove(ladd((0, {s: 1}), u, -1)), title, "the reported length may exceed the input length", key=title)
        o = st.mem["x"]
        L0 = (0, {})
        ok1 = all(o.cells.get(i * 2, (0,))[0] == 2 or None is not ip.in_seg(st, o, lconst(i * 2), 2) for i in range(n))
        rep.check("written", ok1, title, "not every coefficient is provably written on success", key=title)
        a = b = 0
        for k, (sz, v) in o.cells.items():
            if sz == 2 and isinstance(v, V): x = st.sr(v); a = min(a, x[0]); b = max(b, x[1])
            else: a, b = -1 << 20, 1 << 20
        for g in o.segs:
            if g.sz == 2 and isinstance(g.v, V): x = st.sr(g.v); a = min(a, x[0]); b = max(b, x[1])
            else: a, b = -1 << 20, 1 << 20
        rep.check("range", a >= -2047 and b <= 2047, title, "coefficients may lie in [%d, %d]" % (a, b), key=title)

def c04(rep):
    rep.rules("every accepting path of the compressed decoder (degree 1 and 2, all inputs) spells exactly the format: sign, 7 bits, unary part, no minus zero, zero padding, length consumed",
              "every coefficient of the 16-bit decoder is the centred residue of its own field, at the full degree",
              "joined analysis at degree 512: all coefficients written, in range, length consumed within the input")
    rep.trust(*TRUST)
    rep.assume.append("comp_decode's loop body does not depend on the coefficient index beyond the accumulator state that degrees 1 and 2 exhibit; degree 512 is analysed with joins for ranges, lengths and memory")
    thorough = rep.tier == "thorough"
    for logn in (0, 1): comp_decoder(rep, logn)
    for logn in (range(1, 11) if thorough else (1, 2, 9, 10)): fixed_decoder(rep, "comp_decode16", logn, 2, 16, "sig16")
    for logn in ((4, 9) if thorough else (5,)): comp_decode_full(rep, logn)

def c05(rep):
    rep.rules("each decoded coefficient is, bit for bit, its own field of the input; the admitted range is exact; the padding bits are known to be zero on acceptance; exactly the encoded length is required and reported")
    rep.trust(*TRUST)
    logs = range(1, 11) if rep.tier == "thorough" else (1, 2, 3, 9, 10)
    for logn in logs:
        fixed_decoder(rep, "modq_decode", logn, 2, 14, "modq")
        fixed_decoder(rep, "modq_decode16", logn, 2, 16, "modq")
        for b in (5, 6, 7, 8): fixed_decoder(rep, "trim_i8_decode", logn, 1, b, "trim", b)
        for b in (10, 11, 12): fixed_decoder(rep, "trim_i16_decode", logn, 2, b, "trim", b)

# ------------------------------------------------------------------ encoders
def run_encoder(name, logn, w, bits=None, paths=False, signed=True):
    n = 1 << logn
    m, f = fn(name)
    ip = Interp([m], track_bits=True, memo=False); ip.paths = paths; ip.maxpath = 40000
    ip.name_words = True; ip.sign_split = paths
    if signed: ip.fresh_input = signed_input(w)
    st = State()
    s = Sym("max_out", 0, CAP)
    st.mem["x"] = Obj("x", n * w, "input"); st.mem["out"] = Obj("out", (0, {s: 1}), "uninit")
    args = [P("out", C(64, 0)), V(64, 0, CAP, (0, {s: 1}), 64), P("x", C(64, 0)), C(32, logn)] + ([C(32, bits)] if bits else [])
    return ip, ip.run(f, args, st), s

def xbits(b, bf):
    """('x', byte offset of the element, bit) or ('word', lin key, bit)"""
    if b.__class__ is not tuple: return b
    if b in bf: return bf[b]
    s = b[0]
    if isinstance(s.org, tuple) and s.org[0] == "x" and not s.org[1][1]: return ("x", s.org[1][0], b[1])
    if isinstance(s.org, tuple) and s.org[0] == "lin":
        l = s.org[1]
        if len(l[1]) == 1:
            (t, c), = l[1].items()
            if isinstance(t.org, tuple) and t.org[0] == "x" and not t.org[1][1]: return ("lin", t.org[1][0], c, l[0], b[1])
    if isinstance(s.org, tuple) and s.org[0] == "val" and s.org[1] is not None and b[1] < len(s.org[1]): return xbits(s.org[1][b[1]], bf)
    return b

def out_bits(st, L, bf):
    """bits of the output, most significant first, or the offset of the first byte of unknown content"""
    o = st.mem["out"]; out = []
    for i in range(L):
        c = o.cells.get(i)
        v = c[1] if c is not None and c[0] == 1 else None
        b = None if v is None else v.bits if v.lo != v.hi else const_bits(8, v.cval())
        if b is None and v is not None and v.lin is not None and v.lm >= 8 and v.lin[0] == 0 and len(v.lin[1]) == 1:
            (s, k), = v.lin[1].items()
            if k == 1 and isinstance(s.org, tuple) and s.org[0] == "val" and s.org[1] is not None: b = s.org[1][:8]
        if b is None: return None, i
        out += [xbits(x, bf) for x in reversed(b)]
    return out, None

def written_beyond(st, L):
    o = st.mem["out"]
    far = [k for k, (sz, v) in o.cells.items() if k + sz > L]
    if far: return far[0]
    for g in o.segs:
        if not st.prove(ladd(lconst(L), g.end, -1)): return lstr(g.end)
    return None

def xrange_(st, u, w):
    o = st.mem["x"]
    v = o.sym.get((lkey(lconst(u * w)), w))
    return st.rng(v) if v is not None else None

def fixed_encoder(rep, name, logn, w, b, kind, bits=None, paths=False):
    n = 1 << logn; L = (n * b + 7) // 8
    title = "%s(logn=%d%s)" % (name, logn, ", bits=%d" % bits if bits else "")
    ip, rs, s = run_encoder(name, logn, w, bits, paths, signed=kind != "modq")
    mem_alarms(rep, ip, title)
    ok = split_rets(rep, rs, title)
    rep.unit(title, {"return states": len(rs), "succeeding": len(ok), "coefficients": n, "abstract steps": ip.steps})
    if not ok: rep.violate("accepts", title, "no polynomial is encoded", key=title); return
    top = Q - 1 if kind in ("modq", "sig16") else (1 << (b - 1)) - 1
    bot = 0 if kind == "modq" else -top
    full = {}; signs = set()
    for st, r, lo, hi in ok:
        rep.check("return", lo == hi == L, title, "the reported length is %d..%d, not %d" % (lo, hi, L), key=title)
        a = st.sbounds(s)[0]
        wr = written_beyond(st, L)
        rep.check("beyond-length", wr is None, title, "byte %s is written beyond the reported length %d" % (wr, L), key=title)
        rep.check("capacity", a == L, title, "succeeds with a capacity of %d, needs %d" % (a, L), key=title)
        bf = bitfacts(st)
        sg = []
        for u in range(n):
            x = xrange_(st, u, w)
            if not rep.check("range", x is not None and x[0] >= bot and x[1] <= top, title, "coefficient %d is not limited to [%d, %d] (%s)" % (u, bot, top, x), key=title): break
            c0, c1 = full.get(u, (1 << 20, -1 << 20)); full[u] = (min(x[0], c0), max(x[1], c1))
            sg.append(None if x[0] < 0 <= x[1] else int(x[0] < 0))
        else:
            if kind == "sig16" and not paths: continue
            ob, at = out_bits(st, L, bf)
            if not rep.check("written", ob is not None, title, "byte %s of the output is not written or of unknown content" % at, key=title): continue
            for u in range(n):
                f = [ob[u * b + (b - 1 - j)] for j in range(b)]
                if kind == "sig16" and sg[u] == 1:
                    nb = 14
                    want = [("lin", u * w, 1, Q, j) for j in range(nb)] + [0] * (b - nb)
                else:
                    nb = b if kind == "trim" else 14
                    if kind == "sig16" and sg[u] is None: want = None
                    else: want = [("x", u * w, j) for j in range(nb)] + [0] * (b - nb)
                if want is not None:
                    want = [z for z in want]
                    f2 = [sgnbit(z, w, sg, u) for z in f]; want2 = [sgnbit(z, w, sg, u) for z in want]
                    rep.check("field", f2 == want2, title, "field %d of the output is not coefficient %d" % (u, u), key=title)
                else:
                    rep.violate("field", title, "field %d mixes signs" % u, key=title)
            rep.check("padding", all(z == 0 for z in ob[n * b:]), title, "the padding bits are not zero", key=title)
        signs.add(tuple(sg))
    for u, (lo, hi) in full.items():
        rep.check("complete", (lo, hi) == (bot, top), title, "coefficient %d is limited to [%d, %d] instead of [%d, %d]" % (u, lo, hi, bot, top), key=title)
    if kind == "sig16" and paths:
        rep.check("complete", len(signs) == 2 ** n, title, "not every combination of signs is encoded", key=title)

def sgnbit(z, w, sg, u):
    """for a coefficient of known sign all bits from its sign bit on are that sign; we only normalise the sign bit"""
    if z.__class__ is tuple and z[0] == "x" and z[1] == u * w and z[2] == 8 * w - 1 and sg[u] is not None: return sg[u]
    return z

def comp_encoder(rep, logn):
    n = 1 << logn; title = "comp_encode(logn=%d), all paths" % logn
    ip, rs, s = run_encoder("comp_encode", logn, 2, paths=True)
    mem_alarms(rep, ip, title)
    ok = split_rets(rep, rs, title)
    rep.unit(title, {"paths": len(rs), "succeeding": len(ok), "abstract steps": ip.steps})
    if not ok: rep.violate("accepts", title, "no polynomial is encoded", key=title); return
    seen = {}
    for st, r, lo, hi in ok:
        bf = bitfacts(st)
        bad = None
        L = lo
        if lo != hi: bad = ("return", "length %d..%d on one path" % (lo, hi))
        wr = written_beyond(st, L) if bad is None else None
        if wr is not None: bad = ("beyond-length", "byte %s is written beyond the reported length %d" % (wr, L))
        elif bad is None and st.sbounds(s)[0] != L: bad = ("capacity", "succeeds with a capacity of %d for %d bytes" % (st.sbounds(s)[0], L))
        if bad is None:
            ob, at = out_bits(st, L, bf)
            if ob is None: bad = ("written", "byte %s of the output is not written or of unknown content" % at)
        combo = []; pos = 0
        if bad is None:
            for u in range(n):
                x = xrange_(st, u, 2)
                if x is None or x[0] < -2047 or x[1] > 2047: bad = ("range", "coefficient %d is not limited to [-2047, 2047] (%s)" % (u, x)); break
                if pos + 9 > len(ob): bad = ("field", "the output is too short"); break
                sg = ob[pos]
                if sg not in (0, 1) or (sg == 1) != (x[1] < 0) or x[0] < 0 <= x[1]: bad = ("sign", "the sign bit of coefficient %d is not its sign" % u); break
                low = [ob[pos + 7 - j] for j in range(7)]
                src = [("lin", 2 * u, -1, 0, j) for j in range(7)] if sg else [("x", 2 * u, j) for j in range(7)]
                alt = [("lin", 2 * u, 1, 0, j) for j in range(7)]
                if low != src and not (not sg and low == alt): bad = ("field", "the low 7 bits of coefficient %d are %s" % (u, low)); break
                k = 0; pos += 8
                while pos < len(ob) and ob[pos] == 0: k += 1; pos += 1
                if pos >= len(ob) or ob[pos] != 1: bad = ("unary", "the unary part of coefficient %d is not terminated by a constant 1" % u); break
                pos += 1
                if not high_is(st, u, sg, k): bad = ("unary", "%d zeros are written although the magnitude of coefficient %d is not %d..%d" % (k, u, 128 * k, 128 * k + 127)); break
                combo.append((sg, k))
        if bad is None:
            if L != (pos + 7) // 8: bad = ("return", "%d bytes reported, %d produced" % (L, (pos + 7) // 8))
            elif any(z != 0 for z in ob[pos:]): bad = ("padding", "the padding bits are not zero")
        if bad is None: seen[tuple(combo)] = seen.get(tuple(combo), 0) + 1
        for rule in ("return", "beyond-length", "capacity", "written", "sign", "field", "unary", "padding"): rep.count(rule)
        if bad: rep.violate(bad[0], title, bad[1], key="comp_encode", counted=True)
    rep.check("complete", len(seen) == 32 ** n, title, "%d of %d combinations of signs and magnitudes are encoded" % (len(seen), 32 ** n), key="comp_encode")

def high_is(st, u, sg, k):
    """on this path |x[u]| >> 7 == k"""
    v = st.mem["x"].sym.get((lkey(lconst(2 * u)), 2))
    (s, c), = v.lin[1].items()
    # the shifted magnitude is a named word made of the upper bits
    for t, (lo, hi) in st.sb.items():
        if lo == hi == k and isinstance(t.org, tuple) and t.org[0] == "val" and t.org[1]:
            b = [xbits(z, {}) for z in t.org[1] if z != 0]
            want = [("lin", 2 * u, -1, 0, j) for j in range(7, 7 + len(b))] if sg else [("x", 2 * u, j) for j in range(7, 7 + len(b))]
            alt = [("lin", 2 * u, 1, 0, j) for j in range(7, 7 + len(b))]
            if len(b) >= 4 and (b == want or (not sg and b == alt)): return True
    lo, hi = st.sbounds(s)
    if sg: lo, hi = -hi, -lo
    return lo >> 7 == hi >> 7 == k

def c06(rep):
    rep.rules("every output bit of the fixed-width encoders is the right bit of the right coefficient, padding zero, nothing beyond the reported length, exact capacity and range checks",
              "every succeeding path of the compressed encoder (degree 1 and 2, all polynomials) spells exactly the format that the decoder check reads",
              "with C04 and C05 (decoders read those fields bit for bit) decoding the output gives the polynomial back")
    rep.trust(*TRUST)
    rep.assume.append("the loop bodies of comp_encode and comp_encode16 do not depend on the coefficient index beyond the accumulator state that small degrees exhibit")
    logs = range(1, 11) if rep.tier == "thorough" else (1, 2, 3, 9, 10)
    for logn in logs:
        fixed_encoder(rep, "modq_encode", logn, 2, 14, "modq")
        fixed_encoder(rep, "modq_encode16", logn, 2, 16, "modq")
        for b in (5, 6, 7, 8): fixed_encoder(rep, "trim_i8_encode", logn, 1, b, "trim", b)
        for b in (10, 12): fixed_encoder(rep, "trim_i16_encode", logn, 2, b, "trim", b)
        if logn >= 9: fixed_encoder(rep, "comp_encode16", logn, 2, 16, "sig16")
    for logn in (0, 1, 2, 3) if rep.tier == "thorough" else (0, 1, 2): fixed_encoder(rep, "comp_encode16", logn, 2, 16, "sig16", paths=True)
    for logn in (0, 1): comp_encoder(rep, logn)
    # the round trip of the 16-bit signature format needs the decoder's representative interval
    for logn in (1, 9): fixed_decoder(rep, "comp_decode16", logn, 2, 16, "sig16")
