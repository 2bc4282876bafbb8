"""C21: every Keccak-f[1600] of the C and Python code is the permutation of FIPS 202."""
import os
from sa import anf, cbuild, lanes
from sa.report import Broken

REPO = os.environ.get("VERIF_REPO", "/repo")
SITES = (("shake.c", "process_block"), ("keccak256.c", "sha3_permutation"))

def judge(r, w, got, hits, run, steps):
    "run(): fill got with the 25 lanes"
    try: run()
    except anf.TooBig as e: r.violate("lane of the permutation", w, str(e), key=w); return
    except lanes.Stuck as e: r.violate("decided", w, "the analysis does not follow this code: %s" % e, key=w); return
    bad = [i for i in range(25) if got[i] != anf.lane(("L", 24, i))]
    r.count("lane of the permutation", 25 - len(bad)); r.count("round lane recognised", len(hits()))
    done = [k for k in range(1, 25) if all(("L", k, i) in hits() for i in range(25))]
    r.check("result", not bad, w, "lanes %s of the result are not those of Keccak-f[1600]%s" % (bad[:5], "" if len(done) == 24 else "; round %d is the first that does not give the state of the definition" % next(k for k in range(1, 25) if k not in done)), key=w)
    r.unit(w, "25 symbolic lanes, 24 rounds, %d steps" % steps())

def c21(r):
    r.rules("every word is kept as its algebraic normal form over the 25 lanes before the round; a word equal to a lane of the definition after a round (or to its complement) becomes the lane of the next round; the result must be the 25 lanes after round 24",
            "control flow must not depend on lanes; accesses outside the arrays stop the analysis")
    r.trust("the definition of Keccak-f[1600] in sa/anf.py (theta, rho, pi, chi, iota of FIPS 202)")
    for f, fn in SITES:
        m = cbuild.unit(f); g = m.funcs.get(fn)
        if g is None: raise Broken("%s: function %s not found" % (f, fn))
        w = "%s:%s" % (f, fn); x = lanes.C(m); got = [None] * 25; c = anf.cut(); c.hits = {}; anf.WORK[0] = 0
        def run():
            p = x.obj(200)
            for i in range(25): x.store(("p", p[1], 8 * i), 8, lanes.W(anf.lane(("L", 0, i))))
            x.call(g, [p])
            for i in range(25): got[i] = lanes.form(x.load(("p", p[1], 8 * i), 8))
        judge(r, w, got, lambda: c.hits, run, lambda: x.steps)
    path = os.path.join(REPO, "pythonref/keccak.py")
    x = lanes.Py(open(path).read()); w = "keccak.py:Keccak.F1600"; got = [None] * 25; c = anf.cut(); c.hits = {}; anf.WORK[0] = 0
    if not isinstance(x.g.get("Keccak"), lanes.Cls) or "F1600" not in x.g["Keccak"].m: raise Broken("keccak.py: Keccak.F1600 not found")
    def run():
        o = x.new("Keccak"); s = o.d.get("state")
        if not (isinstance(s, tuple) and s[0] == "arr" and len(s[1]) == 25): raise lanes.Stuck("state")
        o.d["state"] = ("arr", [lanes.U(anf.lane(("L", 0, i))) for i in range(25)])
        x.run(o.cls.m["F1600"], [o])
        for i in range(25): got[i] = x.u(o.d["state"][1][i]).f
    judge(r, w, got, lambda: c.hits, run, lambda: x.steps)

# ------------------------------------------------------------------ Y08: the sponge of the Python reference
class Sponge:
    "the definition: rate bytes per block, domain byte after the input, 0x80 into the last byte of the block, output in order"
    def __init__(self, data, rate, ds):
        from sa.pysponge import Z, lit, bx
        self.rate = rate; self.bx = bx; n = len(data) // rate; self.blocks = [list(data[i * rate:(i + 1) * rate]) for i in range(n)]
        b = list(data[n * rate:]); b += [Z] * (rate - len(b)); k = len(data) - n * rate
        b[k] = bx(b[k], lit(ds)); b[rate - 1] = bx(b[rate - 1], lit(0x80)); self.blocks.append(b)
    def perm(self, j):
        "state before the j-th permutation"
        from sa.pysponge import Z
        s = [Z] * 200 if j == 0 else [(0, frozenset([("p", j - 1, i)])) for i in range(200)]
        if j < len(self.blocks): s[:self.rate] = [self.bx(x, y) for x, y in zip(s, self.blocks[j])]
        return s
    def out(self, k): return (0, frozenset([("p", len(self.blocks) - 1 + k // self.rate, k % self.rate)]))

def histories(rate, thorough):
    "(input pieces, output pieces)"
    n = 3 * rate + 2 if thorough else 2 * rate + 2; e = [0, 1, rate - 1, rate, rate + 1]
    for k in range(n): yield [k], [32]
    for k in range(n): yield [7], [k]
    for a in e:
        for b in e + [2 * rate - 1, 2 * rate]: yield [a, b], [1]; yield [3], [a, b, 5]; yield [a, b, 1], [rate, 1]
    for a in range(0, rate + 1, 1 if thorough else 7):
        yield [a, rate - a], [40]; yield [a, 0, rate - a + 3], [a, rate - a, 3]
    yield [0, 0], [0, 8]; yield [], [200]; yield [5] * 60, [3] * 100

def y08(r):
    from sa.pysponge import Py, By, NA, Exc, lit
    root = os.path.join(REPO, "pythonref")
    r.rules("for opaque input bytes and an opaque permutation, every call of Keccak.F1600 receives the state the sponge definition has at that point, and every byte returned is the next byte of the sponge",
            "no call raises, runs for ever, or returns another number of bytes than asked for")
    r.trust("numpy semantics of the array operations modelled in sa/pysponge.py (views alias, in-place operators write through)", "inputs are followed for every length and cut listed in the evidence; contents are arbitrary")
    def drive(w, mk, feed, fin, read, rate, ds):
        n = 0; steps = 0; fns = set(); bad = {}
        for ins, outs in histories(rate, r.tier == "thorough"):
            got = []
            def hook(py, o):
                s = o.d.get("state")
                if not isinstance(s, NA) or s.n * s.es != 200: raise lanes.Stuck("the state of Keccak is not an array of 200 bytes")
                got.append(s.get()); s.put([(0, frozenset([("p", len(got) - 1, i)])) for i in range(200)])
            py = Py(root, hook); py.left = 60000; data = [(0, frozenset([("m", i)])) for i in range(sum(ins))]; sp = Sponge(data, rate, ds); h = "input in pieces of %s, output in pieces of %s" % (ins[:4], outs[:4])
            try:
                o = mk(py); p = 0
                for k in ins: feed(py, o, By(data[p:p + k])); p += k
                fin(py, o); p = 0; res = []
                for k in outs:
                    b = read(py, o, k)
                    ok = isinstance(b, By) and len(b.l) == k
                    r.count("length", 1)
                    if not ok: bad.setdefault("length", "%s: %s bytes are returned when %d are asked for" % (h, len(b.l) if isinstance(b, By) else "no", k)); break
                    x = [i for i in range(k) if b.l[i] != sp.out(p + i)]; p += k; r.count("byte of the output", k)
                    if x: bad.setdefault("byte of the output", "%s: byte %d of the output is not that of the sponge" % (h, p - k + x[0])); break
                for j, s in enumerate(got):
                    r.count("state given to the permutation", 1); t = sp.perm(j)
                    if s != t: bad.setdefault("state given to the permutation", "%s: permutation %d is applied to a state that differs at byte %d" % (h, j, next(i for i in range(200) if s[i] != t[i]))); break
            except Exc as e: bad.setdefault("completes", "%s: line %d raises or does not end: %s" % (h, py.line, e))
            except lanes.Stuck as e: bad.setdefault("decided", "the analysis does not follow line %d: %s" % (py.line, e))
            n += 1; steps += py.steps; fns |= py.fns
            if bad: break
        for rule in ("length", "byte of the output", "state given to the permutation", "completes", "decided"): r.check(rule, rule not in bad, w, bad.get(rule, ""), key=w)
        r.unit(w, {"histories": n, "statements": steps, "functions": sorted(fns)})
    g = Py(root, None).module("keccak")
    if "KeccakHash" not in g: raise Broken("keccak.py: KeccakHash not found")
    one = lambda n: lambda py, o, *a: py.meth(o, n, *a)
    for rate, ds in ((136, 0x1f), (136, 0x01)) + (((72, 0x06), (168, 0x1f), (199, 0x01)) if r.tier == "thorough" else ((72, 0x06),)):
        mk = lambda py: py.new(py.module("keccak")["KeccakHash"], [], {"rate": rate, "dsbyte": ds})
        drive("keccak.py:KeccakHash rate %d suffix 0x%02x" % (rate, ds), mk, one("absorb"), one("pad"), one("squeeze"), rate, ds)
    mk = lambda py: py.new(py.module("keccak")["KeccakHash"], [], {"rate": 136, "dsbyte": 0x1f})
    drive("keccak.py:KeccakHash.update", mk, one("update"), one("pad"), one("squeeze"), 136, 0x1f)
    mk = lambda py: py.call(("meth", py.module("shake")["SHAKE"], "new"), [], {})
    drive("shake.py:SHAKE", mk, one("update"), one("flip"), one("read"), 136, 0x1f)
