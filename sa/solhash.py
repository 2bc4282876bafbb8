"""Sampling loops of the Solidity hash-to-point functions.

The machine of sa/sol.py with a ghost: A values stored so far, B blocks taken from the stream, the sample pending in the current block.
A store of the pending sample reduced modulo q is allowed only when the sample is known to be below 61445 and only at place A of the
result; a sample may be passed over only when it is known to be at least 61445; a block may be taken only when every sample of the
previous one is settled.  Loops whose condition depends on the ghost are decided for every number of iterations: at the head of the loop
every variable is expressed over A and B (offset = base + 32 + 32 A, counter = 2^192 B ...) and the expression is checked on every way
around."""
from .sol import *
from .sol import AT, FORMS, P, W, Machine, St

Q = 12289; KQ = 61445

# ------------------------------------------------------------------ what a value mentions
LV = {}
def kleaves(k):
    if isinstance(k, int): return frozenset()
    if isinstance(k, P): k = k.k
    r = frozenset()
    for m, c in k:
        for a in m: r |= leaves(a)
    return r
def leaves(i):
    x = LV.get(i)
    if x is not None: return x
    o, args = AT.a[i][:2]; r = frozenset()
    if o == "in":
        if args[0] in ("LA", "LB", "top"): r = frozenset(["lead"])
        elif args[0] == "blk": r = frozenset([("blk", args[1])])
    elif o in ("word", "elt"): r = frozenset([("r", args[0])])
    elif o == "base": pass
    elif o == "bits": r = leaves(args[0])
    elif o in ("res", "form"):
        for a in FORMS[args[0]]:
            if a != (): r |= leaves(a)
    elif o == "fprod":
        for a in args: r |= leaves(a)
    elif o in ("ge", "eq", "eqw", "wrap", "val", "wrapped"): r = kleaves(args)
    elif o == "conj":
        for k in args: r |= kleaves(k)
    elif o == "keccak":
        for z in args:
            for y in z:
                if isinstance(y, frozenset): r |= kleaves(y)
    elif isinstance(args, tuple):
        for y in args:
            if isinstance(y, frozenset): r |= kleaves(y)
    LV[i] = r
    return r
def bitform(v, m=None):
    "polynomial with narrow atoms written as single bits"
    out = {}
    items = v.t.items() if isinstance(v, P) else ({(): v}.items() if isinstance(v, int) else v.items())
    for mo, c in items:
        if mo == () or len(mo) != 1: out[mo] = out.get(mo, 0) + c; continue
        a = mo[0]; h = AT.a[a][3]
        if 1 < h <= 0xFFFF and (h + 1) & h == 0:
            for i in range(h.bit_length()):
                b = tuple(next(iter(bits(a, i, 1).t))); out[b] = out.get(b, 0) + (c << i)
        else: out[mo] = out.get(mo, 0) + c
    if m: out = {k: c % m for k, c in out.items()}
    return {k: c for k, c in out.items() if c}
def form(v, st):
    "bit form modulo q"
    f = residue(v, Q, st); return bitform({(a,) if a != () else (): c for a, c in f.items()}, Q)

class Head: pass

class Hash(Machine):
    def __init__(self, prog, mode, salt=None, msg=None):
        Machine.__init__(self, prog, {}, None)
        self.mode = mode; self.bad = []; self.tick = 0; self.cs = [0]; self.nfix = 0; self.nruns = 0; self.nstores = 0; self.order = None
        self.hooks["keccak256"] = lambda m, st, vs, ts: self.digest(st, vs)
        for n in ("shakeInit", "shakeUpdate", "shakePad", "shakeSqueeze", "shakeDigest"): self.hooks[n] = (lambda n: lambda m, st, vs, ts: self.shake(n, st, vs))(n)
    def viol(self, rule, msg):
        x = (rule, getattr(self, "line", 0), msg)
        if x not in self.bad: self.bad.append(x)
    # -------------------------------------------------------- regions, reused once nothing points to them
    def region(self, st, name, dflt="zero", size=None, esz=32, rng=(0, W - 1), fixed=False):
        pool = st.g.get("pool", {}); l = pool.get(name)
        self.tick += 1
        if l:
            i = l[0]; pool = dict(pool); pool[name] = l[1:]; st.g["pool"] = pool
            r = Region(i, name, dflt, size, esz, rng); st.mem[i] = r; st.own.add(i)
            self.forget(st, ("r", i)); v = new("base", (i, name), 128, 1 << 40)
        else:
            v = Machine.region(self, st, name, dflt, size, esz, rng, fixed); i = self.nreg
        st.g["ts"] = dict(st.g.get("ts", {})); st.g["ts"][i] = self.tick
        return v
    def forget(self, st, tag):
        "facts and values about something that is being reused"
        for a in [a for a in st.known if tag in leaves(a)]: del st.known[a]
        for a in [a for a in st.b if tag in leaves(a)]: del st.b[a]
        st.conds = []
        for f in st.fr:
            for n, (v, t) in list(f.items()):
                if isinstance(v, P) and tag in kleaves(v): self.tick += 1; f[n] = (new("in", ("stale", self.tick)), t)
        for rid in list(st.mem):
            for o, v in list(st.mem[rid].cells.items()):
                if isinstance(v, P) and tag in kleaves(v): self.tick += 1; st.w(rid).cells[o] = new("in", ("stale", self.tick))
            rp = st.mem[rid].rope
            if rp and any(isinstance(y, frozenset) and tag in kleaves(y) for z in rp for y in z): st.w(rid).rope = None
    def bases(self, v):
        if isinstance(v, (list, tuple)): return [b for x in v for b in self.bases(x)]
        if not isinstance(v, P): return []
        return [AT.a[a][1][0] for m in v.t for a in m if AT.a[a][0] == "base"]
    def gc(self, st):
        todo = [b for f in st.fr for v, t in f.values() for b in self.bases(v)]; seen = set()
        if st.g.get("out") is not None: todo.append(st.g["out"])
        while todo:
            i = todo.pop()
            if i in seen or i not in st.mem: continue
            seen.add(i)
            for v in st.mem[i].cells.values(): todo += self.bases(v)
        ts = st.g.get("ts", {}); pool = dict(st.g.get("pool", {})); entry = self.cs[-1]
        for i in list(st.mem):
            if i not in seen and ts.get(i, 0) > entry:
                n = st.mem[i].name; del st.mem[i]; pool[n] = tuple(sorted(set(pool.get(n, ())) | {i}))
        st.g["pool"] = pool; st.g["reach"] = seen
    def call(self, g, vs, st):
        self.cs.append(self.tick)
        try: return Machine.call(self, g, vs, st)
        finally: self.cs.pop()
    # -------------------------------------------------------- the ghost
    def A(self, st): return st.g.get("A", 0)
    def known_lt(self, st, s, k, want):
        "is s < k (want True) or s >= k (want False) known"
        lo, hi = st.rng(s)
        if want and hi < k or not want and lo >= k: return True
        t = bitform(add(k - 1, s, -1)) if want else bitform(add(s, k, -1))
        for a, b in st.known.items():
            if AT.a[a][0] != "ge": continue
            p = dict(AT.a[a][1])
            if not b: p = {m: -c for m, c in p.items()}; p[()] = p.get((), 0) - 1
            f = bitform(p)
            if f == t: return True
            # a stronger bound of the same value
            if {m: c for m, c in f.items() if m} == {m: c for m, c in t.items() if m} and f.get((), 0) <= t.get((), 0): return True
        return False
    def advance(self, st):
        "pass over samples known to be refused"
        g = st.g; s = g.get("smp")
        if s is None: return
        while g["cur"] < len(s) and g.get("tent") is None and self.known_lt(st, s[g["cur"]], KQ, False): g["cur"] += 1
    def settle(self, st):
        "states in which a store made before its test is decided"
        if st.g.get("tent") is None: self.advance(st); return [st]
        s = st.g["smp"][st.g["cur"]]; out = []
        for x, d in self.split(st, self.lt(st, s, KQ)):
            x.g["tent"] = None; x.g["cur"] += 1
            if d: x.g["A"] = add(self.A(x), 1)
            self.advance(x); out.append(x)
        return out
    def s_if(self, s, st, yul):
        out = []
        for x in self.settle(st): out += Machine.s_if(self, s, x, yul)
        return out
    def addr(self, st, v):
        v = st.simp(v)
        if isinstance(v, int): return None, v
        bs = [m for m, c in v.t.items() if len(m) == 1 and AT.a[m[0]][0] == "base" and c == 1]
        if len(bs) != 1: raise Unsup("memory address %s" % show(v)[:100])
        return AT.a[bs[0][0]][1][0], add(v, P({bs[0]: 1}), -1)
    def mstore(self, st, v, x):
        rid, o = self.addr(st, v)
        if rid is None: return Machine.mstore(self, st, v, x)
        self.advance(st); g = st.g; s = g.get("smp"); x = st.simp(x)
        if s is not None and st.mem[rid].dflt == "zero" and isinstance(x, P):
            lo, hi = st.rng(x)
            if 0 <= lo and hi < Q and g["cur"] < len(s):
                f = form(x, st); w = s[g["cur"]]
                if f == form(w, st) and g.get("tent") is None:
                    self.nstores += 1
                    if g.get("out") not in (None, rid): self.viol("place of each value", "accepted samples go to two different arrays")
                    g["out"] = rid
                    d = add(o, add(32, mul(32, self.A(st))), -1)
                    if key(d) != 0 and st.rng(d) != (0, 0): self.viol("place of each value", "an accepted sample is not stored right after the %s values before it" % show(self.A(st)))
                    if self.known_lt(st, w, KQ, True): g["A"] = add(self.A(st), 1); g["cur"] += 1
                    else: g["tent"] = g["cur"]
                    return
        if rid == g.get("out") and not (o == 0 and isinstance(x, int)):
            self.viol("value of each place", "something other than the next sample below 61445, reduced, is stored in the result"); return
        if not isinstance(o, int): raise Unsup("store at a place that depends on data")
        if s is not None and len(s) > g["cur"] and isinstance(x, P) and 0 <= st.rng(x)[0] and st.rng(x)[1] < Q:
            # a later sample of the block stored while an earlier one is not settled
            if any(form(x, st) == form(z, st) for z in s[g["cur"] + 1:]) and st.mem[rid].dflt == "zero" and st.rng(x)[1] == Q - 1:
                self.viol("order of the samples", "a sample is stored while an earlier sample of the stream is neither stored nor refused")
        Machine.mstore(self, st, v, x)
    def mload(self, st, v):
        rid, o = self.addr(st, v)
        if rid is not None and rid == st.g.get("out") and key(o) != 0: raise Unsup("the result is read back")
        if not isinstance(o, int): raise Unsup("load at a place that depends on data")
        return Machine.mload(self, st, v)
    def fetch(self, st, nbytes):
        "next block of the stream -> words"
        self.advance(st); g = st.g; s = g.get("smp")
        if s is not None and g["cur"] < len(s): self.viol("order of the samples", "a block is taken while sample %d of the previous block is neither stored nor refused" % g["cur"])
        if nbytes % 2: raise Unsup("odd number of stream bytes at once")
        g["slot"] = slot = 1 - g.get("slot", 1)
        self.forget(st, ("blk", slot)); g["B"] = add(g.get("B", 0), 1); g["cur"] = 0
        ws = []; smp = []
        for i in range((nbytes + 31) // 32):
            k = min(32, nbytes - 32 * i)
            b = new("in", ("blk", slot, i), 0, (1 << 8 * k) - 1); a = next(iter(b.t))[0]
            smp += [bits(a, 8 * k - 16 - 16 * j, 16) for j in range(k // 2)]; ws.append(mul(b, 1 << (256 - 8 * k)))
        g["smp"] = tuple(smp); return ws
    def seed_ok(self, rope): return rope == self.order
    def digest(self, st, vs):
        out = []
        for x in self.settle(st):
            v = x.simp(vs[0])
            if len(vs) == 1: rope = self.contents(x, v)
            else:
                n = x.simp(vs[1])
                if not isinstance(n, int): raise Unsup("hash of unknown length")
                r, o = self.reg(x, v, False)
                if r.rope is not None and o == 32 and r.cells.get(0) == n: rope = r.rope
                else:
                    rope = []; i = 0
                    while i < n:
                        w = min(32, n - i); q = self.mload(x, add(v, i))
                        if w < 32: q = self.op2(x, "shr", 8 * (32 - w), q)
                        rope.append(("w", key(q), w)); i += w
                    rope = tuple(rope)
            seed = new("in", ("seed",))
            if rope == self.order and not x.g.get("seeded"):
                x.g["seeded"] = True; val = seed
                if self.mode == "tet": val = self.fetch(x, 32)[0]; x.g["T"] = val
            elif self.mode == "evm" and len(rope) == 2 and rope[0] == ("w", key(seed), 32) and rope[1][2] == 8:
                c = rope[1][1]; c = c if isinstance(c, int) else P(dict(c)); B = x.g.get("B", 0)
                if key(add(x.simp(c), B, -1)) != 0 and x.rng(add(x.simp(c), B, -1)) != (0, 0): self.viol("stream", "block %s of the stream is taken with counter %s" % (show(B), show(c)[:80]))
                val = self.fetch(x, 32)[0]
            elif self.mode == "tet" and x.g.get("T") is not None and rope == (("w", key(x.g["T"]), 32),):
                val = self.fetch(x, 32)[0]; x.g["T"] = val
            else:
                self.viol("stream", "something other than %s is hashed" % ("the salt and message, or the state and counter," if self.mode == "evm" else "the salt and message, or the previous digest,"))
                val = new("keccak", rope)
            out.append((x, val, "bytes32"))
        return out
    def fresh_ctx(self, st, rid):
        r = st.mem[rid]
        if r.dflt != "zero": return False
        for o, v in r.cells.items():
            if v == 0: continue
            b = self.bases(v)
            if len(b) != 1 or not self.fresh_ctx(st, b[0]): return False
        return True
    def shake(self, n, st, vs):
        out = []
        for x in self.settle(st):
            ctx = dict(x.g.get("ctx", {}))
            if n == "shakeInit":
                p = self.region(x, "ctx", "zero", 128); ctx[self.bases(p)[0]] = ("absorb", ()); x.g["ctx"] = ctx; out.append((x, p, "CtxShake")); continue
            i = self.bases(vs[0])
            if len(i) != 1: raise Unsup("sponge context")
            i = i[0]; c = ctx.get(i) or (("absorb", ()) if self.fresh_ctx(x, i) else None)
            if c is None: self.viol("stream", "%s is called with a context whose state is not known" % n); c = ("absorb", ())
            if n == "shakeUpdate":
                if c[0] != "absorb": self.viol("stream", "input is absorbed after padding")
                p = self.region(x, "ctx", "zero", 128); ctx[self.bases(p)[0]] = ("absorb", c[1] + tuple(self.contents(x, vs[1]))); x.g["ctx"] = ctx; out.append((x, p, "CtxShake")); continue
            if n == "shakePad" or n == "shakeDigest":
                if c[0] != "absorb": self.viol("stream", "the sponge is padded twice")
                c = ("squeeze", c[1], 0)
            if n == "shakePad": ctx[i] = c; x.g["ctx"] = ctx; out.append((x, vs[0], "CtxShake")); continue
            if c[0] != "squeeze": self.viol("stream", "output is taken from a sponge that is not padded"); c = ("squeeze", c[1], 0)
            if c[1] != self.order: self.viol("stream", "the sponge absorbed something other than the salt followed by the message")
            if n == "shakeDigest" and x.g.get("smp") is not None: self.viol("stream", "the stream is restarted")
            k = x.simp(vs[1])
            if not isinstance(k, int): raise Unsup("number of bytes squeezed")
            ctx[i] = ("squeeze", c[1], 1); x.g["ctx"] = ctx
            ws = self.fetch(x, k)
            p = self.region(x, "squeezed", "zero", 32 + k, 1); r = self.reg(x, p)[0]; r.cells[0] = k
            for j, w in enumerate(ws): r.cells[32 + 32 * j] = w
            out.append((x, (vs[0], p), ("CtxShake", "bytes")) if n == "shakeSqueeze" else (x, p, "bytes"))
        return out
    # -------------------------------------------------------- loops
    def join(self, a, b, c, kn, bd, cs):
        if any(a.g.get(k) != b.g.get(k) for k in ("A", "B", "cur", "slot", "tent", "out", "ctx", "seeded")): return None
        return Machine.join(self, a, b, c, kn, bd, cs)
    def lead(self, k, s): return new("in", (k, s[1], len(self.cs)), 0, 1 << 62)
    def normal(self, st):
        out = []
        for x in self.settle(st):
            g = x.g
            if g.get("smp") is not None and g["cur"] >= len(g["smp"]): g["cur"] = len(g["smp"])
            for f in x.fr:
                for n, (v, t) in list(f.items()):
                    if isinstance(v, P): f[n] = (x.simp(v), t)
            for rid in list(x.mem):
                r = x.mem[rid]; ch = {o: x.simp(v) for o, v in r.cells.items() if isinstance(v, P)}
                ch = {o: v for o, v in ch.items() if v is not r.cells[o]}
                if ch: x.w(rid).cells.update(ch)
            for k in ("A", "B"):
                if isinstance(g.get(k), P): g[k] = x.simp(g[k])
            for k in ("A", "B"):
                v = g.get(k, 0)
                if isinstance(v, P):
                    lo, hi = x.rng(v)
                    if lo == hi: g[k] = lo
            self.pinned(x); self.forget_used(x); self.gc(x); out.append(x)
        return out
    def pinned(self, x):
        "ghosts with a single possible value left are replaced by it"
        for G in ("LA", "LB"):
            for a in [a for a, (lo, hi) in x.b.items() if lo == hi and AT.a[a][0] == "in" and AT.a[a][1][0] == G]:
                c = x.b[a][0]
                def sub(v):
                    if not isinstance(v, P) or "lead" not in kleaves(v): return v
                    out = 0
                    for m, k in v.t.items():
                        n = m.count(a); r = tuple(y for y in m if y != a)
                        out = add(out, mul(k * c ** n, P({r: 1}) if r else 1))
                    return out
                for f in x.fr:
                    for n, (v, t) in list(f.items()):
                        if isinstance(v, P): f[n] = (sub(v), t)
                for rid in list(x.mem):
                    ch = {o: sub(v) for o, v in x.mem[rid].cells.items() if isinstance(v, P)}
                    if ch: x.w(rid).cells.update(ch)
                for k in ("A", "B"): x.g[k] = sub(x.g.get(k, 0))
    def forget_used(self, x):
        "drop facts about samples that are settled"
        s = x.g.get("smp")
        if s is None: return
        live = set()
        for z in s[x.g["cur"]:]: live |= set(bitform(z))
        live.discard(())
        def old(a, p):
            return any(l[0] == "blk" for l in leaves(a)) and not live & set(bitform(p))
        for d in (x.known, x.b):
            for a in list(d):
                if old(a, dict(AT.a[a][1]) if AT.a[a][0] == "ge" else {(a,): 1}): del d[a]
    def locs(self, x):
        out = {}
        for i, f in enumerate(x.fr):
            for n, (v, t) in f.items(): out[("f", i, n)] = v
        for rid in x.g["reach"]:
            r = x.mem[rid]
            for o, v in r.cells.items(): out[("m", rid, o)] = v
        return out
    def headkey(self, x):
        g = x.g; L = self.locs(x)
        return (g.get("cur") if g.get("smp") is not None else None, len(g["smp"]) if g.get("smp") is not None else None, g.get("slot"), bool(g.get("seeded")),
                tuple(sorted((str(l), tuple(self.bases(v))) for l, v in L.items() if self.bases(v))), tuple(sorted(str(r) for r in g["reach"])),
                tuple(sorted(f for i, fr in enumerate(x.fr) for f in ["%d.%s" % (i, n) for n in fr])), tuple(sorted((str(k), str(v[0])) for k, v in g.get("ctx", {}).items() if k in g["reach"])))
    def param(self, h, v, A, B, loc):
        "(c0, cA, cB) of a value over the ghosts of its state, or None"
        if not isinstance(v, P): return (v, 0, 0)
        cs = []
        for G in (A, B):
            c = 0
            if isinstance(G, P):
                ms = [m for m in G.t if m]
                if len(ms) != 1 or len(ms[0]) != 1 or G.t[ms[0]] != 1: return None if "lead" in kleaves(v) else (v, 0, 0)
                c = v.t.get(ms[0], 0) if isinstance(v, P) else 0
                v = add(v, mul(c, G), -1)
            cs.append(c)
        if isinstance(v, P) and "lead" in kleaves(v): return None
        return (v, cs[0], cs[1])
    def mkhead(self, x, s):
        h = Head(); h.st = x; h.n = 0; A, B = x.g.get("A", 0), x.g.get("B", 0)
        h.A, h.B = A, B; h.ra, h.rb = x.rng(A), x.rng(B); h.fa, h.fb = isinstance(A, int), isinstance(B, int)
        h.t = {l: self.param(h, v, A, B, l) for l, v in self.locs(x).items()}
        h.known = {a: b for a, b in x.known.items() if "lead" not in leaves(a)}
        h.b = {a: b for a, b in x.b.items() if "lead" not in leaves(a)}
        return h
    def merge(self, h, x):
        "does the head have to be followed again"
        ch = False; A, B = x.g.get("A", 0), x.g.get("B", 0); L = self.locs(x)
        newA = h.fa and key(A) != key(h.A); newB = h.fb and key(B) != key(h.B)
        for l in set(h.t) | set(L):
            if l in h.t and h.t[l] is None: continue
            def dv(l):
                if l[0] != "m": return None
                return 0 if x.mem[l[1]].dflt == "zero" else None
            v = L.get(l); t = h.t.get(l)
            if v is None: v = dv(l)
            if l not in h.t: t = (dv(l), 0, 0) if dv(l) is not None else None
            if t is None or v is None: h.t[l] = None; ch = True; continue
            if not isinstance(v, (int, P)) or not isinstance(t[0], (int, P)):
                if v != t[0]: h.t[l] = None; ch = True
                continue
            c0, cA, cB = t
            d = add(add(add(v, c0, -1), mul(cA, A), -1), mul(cB, B), -1)
            if key(d) == 0:
                if l not in h.t: h.t[l] = t; ch = True
                continue
            done = False
            for G, G0, nw, w in ((A, h.A, newA, 1), (B, h.B, newB, 2)):
                if not nw: continue
                dl = add(G, G0, -1)
                if isinstance(dl, int):
                    if not isinstance(d, int): continue
                    a, b = sgn_(d), sgn_(dl)
                    if b == 0 or a % b: continue
                    k = a // b
                else:
                    m0 = next(m for m in dl.t if m)
                    if not isinstance(d, P) or d.t.get(m0, 0) % dl.t[m0]: continue
                    k = d.t.get(m0, 0) // dl.t[m0]
                if key(add(d, mul(k, dl), -1)) != 0: continue
                c0 = add(c0, mul(k, G0), -1)
                h.t[l] = (c0, cA + k, cB) if w == 1 else (c0, cA, cB + k)
                done = ch = True; break
            if not done: h.t[l] = None; ch = True
        for k, f, r, G, nw in (("A", "fa", "ra", A, newA), ("B", "fb", "rb", B, newB)):
            lo, hi = x.rng(G); l0, h0 = getattr(h, r)
            if k == "B": hi = min(hi, 1 << 62)
            if nw: setattr(h, f, False); ch = True
            if lo < l0 or hi > h0:
                ch = True; h.n += 1; lo, hi = min(lo, l0), max(hi, h0)
                if h.n > 3:
                    lo = 0
                    if hi > h0: hi = 512 if k == "A" and hi <= 512 else 1 << 62
                setattr(h, r, (lo, hi))
        for nm, src in (("known", x.known), ("b", x.b)):
            d = getattr(h, nm)
            for a in list(d):
                if src.get(a) != d[a]: del d[a]; ch = True
        g = h.st.g
        if g.get("out") != x.g.get("out"):
            if g.get("out") is None: g["out"] = x.g["out"]; ch = True
            elif x.g.get("out") is not None: self.viol("place of each value", "accepted samples go to two different arrays")
        if g.get("T") != x.g.get("T"): 
            if kkey(g.get("T")) != kkey(x.g.get("T")): g["T"] = None; ch = True
        p, q = g.get("pool", {}), x.g.get("pool", {})
        g["pool"] = {n: tuple(sorted(set(p[n]) & set(q[n]))) for n in p if n in q}
        return ch
    def inst(self, h, s):
        "state for every value of the ghosts the head covers"
        x = h.st.fork(); x.known = dict(h.known); x.b = dict(h.b); x.conds = []
        A = h.A if h.fa else self.lead("LA", s); B = h.B if h.fb else self.lead("LB", s)
        for G, r, f in ((A, h.ra, h.fa), (B, h.rb, h.fb)):
            if not f: x.b[next(iter(G.t))[0]] = r
        x.g["A"], x.g["B"] = A, B
        for l, t in h.t.items():
            if t is None: v = new("in", ("top", s[1], len(self.cs), str(l)))
            elif not isinstance(t[0], (int, P)): continue
            else: v = add(add(t[0], mul(t[1], A)), mul(t[2], B))
            if l[0] == "f": x.fr[l[1]][l[2]] = (v, x.fr[l[1]][l[2]][1])
            else:
                r = x.w(l[1]); r.cells[l[2]] = v
                if t is None or t[1] or t[2]: r.rope = None
        return x
    def depends(self, e, st):
        "does the loop's condition depend on anything but concrete numbers"
        if e is None: return True
        names = set(); todo = [e]; calls = False
        while todo:
            z = todo.pop()
            if isinstance(z, tuple):
                if len(z) >= 3 and z[0] in ("name", "yname") and isinstance(z[2], str): names.add(z[2])
                todo += [y for y in z if isinstance(y, (tuple, list))]
            elif isinstance(z, list): todo += z
        vs = [st.fr[-1][n][0] for n in names if n in st.fr[-1]]
        if not vs: return True
        return any(isinstance(v, P) and not self.bases(v) for v in vs)
    def s_loop(self, s, st, yul):
        out = []; names = set(st.fr[-1]); heads = []
        for x, k, v in self.block(s[2], st, yul):
            if k == "next": heads.append(x)
            else: out.append((x, k, v))
        it = 0
        def run(x, back):
            for y, v, t, k in (self.ev(s[3], x, yul) if s[3] is not None else [(x, 1, "bool", None)]):
                if k: res.append((y, k, None)); continue
                for z, d in self.split(y, self.boolv(y, v)):
                    if not d: res.append((z, "next", None)); continue
                    for w, k2, v2 in self.scope(s[5], z, yul):
                        if k2 == "break": res.append((w, "next", None))
                        elif k2 in ("next", "continue"):
                            for u, k3, v3 in self.block(s[4], w, yul):
                                if k3 == "next": back.append(u)
                                else: res.append((u, k3, v3))
                        elif k2 == "revert": self.reverts += 1
                        else: res.append((w, k2, v2))
        cur = heads; fix = False
        while cur:
            it += 1
            if it > 2000: raise Unsup("loop at line %d" % s[1])
            if any(self.depends(s[3], x) for x in cur): fix = True; break
            if len(cur) > 1 or any(x.g.get("tent") is not None for x in cur): cur = self.fold(cur, s)
            nx = []; res = []
            for x in cur: run(x, nx)
            out += res; cur = nx
        if fix:
            self.nfix += 1
            H = {}; outs = {}; work = list(cur); runs = 0
            while work:
                x = work.pop(0)
                for y in self.normal(x):
                    k = self.headkey(y); h = H.get(k)
                    if h is None: H[k] = h = self.mkhead(y, s)
                    elif not self.merge(h, y): continue
                    runs += 1; self.nruns += 1
                    if self.bad: raise Unsup("a rule is already broken on the way")
                    if runs > 12000 or len(H) > 1500: raise Unsup("loop at line %d does not settle" % s[1])
                    res = []; back = []
                    run(self.inst(h, s), back); outs[k] = res; work += back
            for r in outs.values(): out += r
        for x, k, v in out:
            f = x.fr[-1]
            for n in [n for n in f if n not in names]: del f[n]
        nxt = [x for x, k, v in out if k == "next"]
        if len(nxt) > 1: out = [(x, k, v) for x, k, v in out if k != "next"] + [(x, "next", None) for x in self.fold(nxt, s)]
        return out
    def fold(self, l, s):
        "states at one point, joined where they agree on the ghost's place in the stream"
        H = {}
        for x in l:
            for y in self.normal(x):
                k = (self.headkey(y), tuple(sorted((str(n), v) for n, v in self.locs(y).items() if isinstance(v, int) and n[0] == "f" and n[1] == len(y.fr) - 1 and not self.ghostly(y, n))))
                k = k[0]
                h = H.get(k)
                if h is None: H[k] = self.mkhead(y, s)
                else: self.merge(h, y)
        return [self.inst(h, ("fold", s[1])) for h in H.values()]
    def ghostly(self, x, n): return False
def sgn_(c): c %= W; return c - W if c > W // 2 else c
def kkey(v): return v if v is None else key(v)
