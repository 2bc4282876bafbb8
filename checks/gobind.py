"""Go bindings (falcon/falcon.go) and the precompile (geth/contracts.go)."""
import glob, os, re
from sa import report
from sa.go import *
from sa.go import lsym, fresh, INTV, K, TRUE, FALSE, NIL, Go, GSt, Ob, Unmod, Dead, dump

REPO = os.environ.get("VERIF_REPO", "/repo")
API = os.path.join(REPO, "falcon/nistfalcon/src/api.h")

def sizes():
    t = open(API).read()
    d = {}
    for k in ("CRYPTO_SECRETKEYBYTES", "CRYPTO_PUBLICKEYBYTES", "CRYPTO_BYTES"):
        m = re.search(r"#\s*define\s+%s\s+\(?(\d+)\)?" % k, t)
        if not m: raise report.Broken("%s not found in api.h" % k)
        d[k] = int(m.group(1))
    return d["CRYPTO_SECRETKEYBYTES"], d["CRYPTO_PUBLICKEYBYTES"], d["CRYPTO_BYTES"]

class Bind(Go):
    """the falcon package: calls into C are checked against the library's contracts"""
    def __init__(self, files, report):
        Go.__init__(self, files, report)
        self.SK, self.PK, self.OV = sizes()
        self.ncalls = {}; self.records = []
        self.ext["import:C"] = "C"
    def buf(self, p, need, s, n, what, write):
        """pointer argument p must reach `need` bytes"""
        if p[0] == "aptr": p = ("ptr", p[1], lconst(0))
        if p[0] == "nil":
            ok = s.eq(need, lconst(0)) or s.ge(lscale(need, -1))
            self.rep("buffer", ok, self.where(n), "%s: null pointer passed for a buffer of up to %s bytes" % (what, lstr(need)))
            return None
        if p[0] != "ptr":
            self.rep("buffer", False, self.where(n), "%s: size of the buffer passed cannot be established (%s)" % (what, p[0])); return None
        ob = s.heap[p[1]]
        room = ladd(ob.size, p[2], -1)
        ok = s.ge(ladd(room, need, -1))
        self.rep("buffer", ok, self.where(n), "%s: buffer of %s bytes, the C function may %s %s" % (what, lstr(room), "write" if write else "read", lstr(need)))
        return p
    def view(self, p, ln, s):
        """content of the ln bytes at p"""
        if p is None: return (("empty",), lconst(0), lconst(0))
        return (s.heap[p[1]].cont, p[2], ln)
    def clob(self, p, s, cont):
        if p is not None: s.heap[p[1]] = s.heap[p[1]].copy(cont=cont, by={}, rest=None)
    def setnum(self, p, v, s, n, what):
        if p[0] == "vptr": s.cells[p[1]] = v
        elif p[0] == "nil": self.rep("buffer", False, self.where(n), what + ": null pointer for the length result")
        else: self.rep("buffer", False, self.where(n), what + ": length result is not written to a 64-bit variable")
    def num(self, v, n):
        if v[0] != "int": raise Unmod(self.where(n) + ": length argument is not a number")
        return v[1]
    def fork2(self, s):
        a = s; b = s.fork()
        return a, b, INTV(lsym(fresh("ret", -(1 << 31), -1)))
    def key(self, p, ln, s, n, what):
        """a key buffer holds a whole caller slice of exactly the documented length"""
        if p is None: return
        c = self.view(p, lconst(ln), s)
        par = c[0][1] if c[0][0] == "in" else None
        ok = par is not None and s.eq(c[1], lconst(0)) and s.eq(self.plen[par], lconst(ln))
        self.rep("keylen", ok, self.where(n), "%s: the key handed to C is not shown to be a caller slice of exactly %d bytes" % (what, ln))
        return c
    def entropy(self, s, n, what):
        d = s.flags.get("drbg")
        lk = any(v for k, v in s.flags.items() if isinstance(k, tuple) and k[0] == "lock")
        self.rep("entropy", d is not None, self.where(n), "%s: the C generator has not been seeded from operating system entropy on this path" % what)
        ok = lk and (d is None or s.flags.get("unlocked") == d[1] or d[0] == "init")
        self.rep("serial", ok, self.where(n), "%s: draws from the process-wide C generator without holding a lock since it was seeded" % what)
    def mayfail(self, *a): pass
    def e_C_crypto_sign_keypair(self, vs, s, n):
        w = "crypto_sign_keypair"; self.ncalls[w] = self.ncalls.get(w, 0) + 1
        pk = self.buf(vs[0], lconst(self.PK), s, n, w + " pk", True); sk = self.buf(vs[1], lconst(self.SK), s, n, w + " sk", True)
        self.entropy(s, n, w)
        i = self.id(); a, b, r = self.fork2(s)
        self.clob(pk, a, ("keypk", i)); self.clob(sk, a, ("keysk", i)); self.clob(pk, b, ("unk", i)); self.clob(sk, b, ("unk", i))
        a.calls.append((w, i, 0)); b.calls.append((w, i, -1))
        return [(a, K(0)), (b, r)]
    def e_C_crypto_sign(self, vs, s, n):
        w = "crypto_sign"; self.ncalls[w] = self.ncalls.get(w, 0) + 1
        ml = self.num(vs[3], n)
        sm = self.buf(vs[0], ladd(ml, lconst(self.OV)), s, n, w + " sm", True)
        m = self.buf(vs[2], ml, s, n, w + " m", False); sk = self.buf(vs[4], lconst(self.SK), s, n, w + " sk", False)
        key = self.key(sk, self.SK, s, n, w)
        self.entropy(s, n, w)
        i = self.id(); msg = self.view(m, ml, s)
        a, b, r = self.fork2(s)
        L = fresh("smlen", 0, 1 << 62); a.n.add_fact(ladd(ladd(ml, lconst(self.OV)), lsym(L), -1))
        self.setnum(vs[1], INTV(lsym(L)), a, n, w)
        self.clob(sm, a, ("signed", i)); self.clob(sm, b, ("unk", i))
        a.calls.append((w, i, 0, msg, key, lsym(L))); b.calls.append((w, i, -1))
        return [(a, K(0)), (b, r)]
    def e_C_crypto_sign_open(self, vs, s, n):
        w = "crypto_sign_open"; self.ncalls[w] = self.ncalls.get(w, 0) + 1
        sl = self.num(vs[3], n)
        # the message is what remains after the 2-byte length and the 40-byte salt; nothing is written below that
        need = ladd(sl, lconst(-42))
        m = self.buf(vs[0], need, s, n, w + " m", True)
        sm = self.buf(vs[2], sl, s, n, w + " sm", False); pk = self.buf(vs[4], lconst(self.PK), s, n, w + " pk", False)
        key = self.key(pk, self.PK, s, n, w)
        i = self.id(); sig = self.view(sm, sl, s)
        a, b, r = self.fork2(s)
        L = fresh("mlen", 0, 1 << 62)
        alive = a.n.add_fact(ladd(need, lsym(L), -1))
        self.setnum(vs[1], INTV(lsym(L)), a, n, w)
        self.setnum(vs[1], INTV(lsym(fresh("mlen", 0, (1 << 64) - 1))), b, n, w)
        self.clob(m, a, ("opened", i)); self.clob(m, b, ("unk", i))
        a.calls.append((w, i, 0, sig, key, lsym(L), m[2] if m else lconst(0))); b.calls.append((w, i, -1))
        return ([(a, K(0))] if alive else []) + [(b, r)]
    def e_C_randombytes_init(self, vs, s, n):
        w = "randombytes_init"; self.ncalls[w] = self.ncalls.get(w, 0) + 1
        p = self.buf(vs[0], lconst(48), s, n, w + " entropy", False)
        if vs[1][0] != "nil": self.buf(vs[1], lconst(48), s, n, w + " personalization", False)
        ok = p is not None and s.heap[p[1]].cont[0] == "os" and not p[2][1] and p[2][0] == 0
        s.flags["drbg"] = ("init" if self.cur == "init" else "call", s.flags.get("unlocked")) if ok else None
        return [(s, ("tuple", []))]
    def e_C_GoBytes(self, vs, s, n):
        l = self.num(vs[1], n)
        p = vs[0] if vs[0][0] != "aptr" else ("ptr", vs[0][1], lconst(0))
        self.rep("buffer", s.ge(l), self.where(n), "GoBytes: the length may be negative (%s), for instance after a narrowing conversion" % lstr(l))
        s.n.add_fact(l)
        p = self.buf(p, l, s, n, "GoBytes", False)
        c = self.view(p, l, s)
        return [(s, self.newslice(s, l, c[0] if not c[1][1] and c[1][0] == 0 else ("sub", c[0], lkey(c[1]))))]
    def e_C_CBytes(self, vs, s, n):
        c = self.content(s, vs[0])
        o = self.alloc(s, c[2], c[0] if s.eq(c[1], lconst(0)) else ("sub", self.id()))
        return [(s, ("ptr", o, lconst(0)))]
    def e_C_malloc(self, vs, s, n):
        l = self.num(vs[0], n)
        return [(s, ("ptr", self.alloc(s, l, ("heap", self.id())), lconst(0)))]
    def e_C_calloc(self, vs, s, n): return [(s, ("ptr", self.alloc(s, self.num(vs[1], n) if self.const(vs[0]) == 1 else lscale(self.num(vs[0], n), self.const(vs[1]) or 1), ("zero", self.id()), rest=0), lconst(0)))]
    def e_C_free(self, vs, s, n): return [(s, ("tuple", []))]
    def external(self, pkg, fn, vs, s, n):
        r = Go.external(self, pkg, fn, vs, s, n)
        if r is None and pkg == "C":
            self.rep("buffer", False, self.where(n), "call of C.%s: no contract for this C function" % fn)
        return r
    # ---------------------------------------------------------- entry points
    def entry(self, name):
        d = self.funcs[name]; st = GSt(); self.cur = name; self.plen = {}; args = []; self.params = []
        for p in d["Type"]["Params"].get("List", []):
            t = self.tname(p["Type"])
            for nm in p.get("Names") or [{"Name": "_"}]:
                k = nm["Name"]; self.params.append(k)
                if t[0] == "slice" and self.bytey(t[1]):
                    L = fresh("len(%s)" % k, 0, MAXLEN); C = fresh("cap(%s)" % k, 0, MAXLEN)
                    st.n.add_fact(ladd(lsym(C), lsym(L), -1)); self.plen[k] = lsym(L)
                    o = self.alloc(st, lsym(C), ("in", k)); args.append(("slice", o, lconst(0), lsym(L), lsym(C)))
                elif t[0] == "str":
                    L = fresh("len(%s)" % k, 0, MAXLEN); self.plen[k] = lsym(L); args.append(("str", (("in", k), lconst(0), lsym(L))))
                elif t[0] == "int": args.append(INTV(lsym(fresh(k, t[1], t[2]))))
                elif t[0] == "arr": args.append(self.zero(st, p["Type"], p)); st.heap[args[-1][1]] = st.heap[args[-1][1]].copy(cont=("in", k), by={}, rest=None); self.plen[k] = st.heap[args[-1][1]].size
                elif t[0] == "bool": args.append(("opq", ("in", k)))
                else: args.append(("opq", ("in", k)))
        sts = [st]
        for d0 in self.inits:
            nx = []
            for s in sts: nx += [t for t, _ in self.invoke(d0, "init", [], s, d0)]
            sts = nx
        out = []
        for s in sts: out += self.invoke(d, name, args, s, d)
        return out

MAXLEN = 1 << 47

def load(names, what):
    fs = []
    for p in names:
        p = os.path.join(REPO, p)
        fs += sorted(x for x in glob.glob(p) if not x.endswith("_test.go"))
    if not fs: raise report.Broken("%s: no Go source found" % what)
    return fs, dump(fs)

def package(rep, kinds):
    fs, trees = load(["falcon/*.go"], "Go package falcon")
    def cb(kind, ok, where, msg):
        if kind in kinds:
            rep.check(kind, ok, "falcon.go:" + where, msg, key=where.split(" (")[0] + ":" + kind + ":" + msg.split(":")[0][:40])
    b = Bind(trees, cb)
    outs = {}
    for nm, d in sorted(b.funcs.items()):
        if not nm[0].isupper() or not d.get("Body"): continue
        try: outs[nm] = (b.entry(nm), dict(b.plen), list(b.params))
        except (Unmod, Dead) as e:
            rep.violate("analysed", "falcon.go:" + nm, "the function uses a construct the analysis does not model, so nothing is established about it: %s" % e, key=nm)
    for nm, (o, _, _) in outs.items(): rep.unit("falcon.go:" + nm, {"paths": len(o)})
    rep.unit("calls into C (per path)", dict(b.ncalls))
    rep.unit("expressions evaluated", b.seen)
    return b, outs

TRUST = ("the Go front end (go/parser) and the path enumerator sa/go.py", "contracts of crypto_sign_keypair, crypto_sign, crypto_sign_open (decided by C01, C02, C03, C11) and randombytes_init",
         "Go slices are at most 2^47 bytes long")

def isok(v, fn=None): return v[0] == "nil"

def g01(rep):
    rep.level = "proof"; rep.trust(*TRUST)
    rep.rules("every pointer handed to C reaches at least the bytes the C function may read or write for the lengths passed, on every path and for all lengths of the caller's slices",
              "index and slice expressions and GoBytes lengths are in range on every path (no run-time panic)",
              "the key given to C is a caller slice of exactly the documented length")
    b, outs = package(rep, ("buffer", "index", "slice", "keylen", "panic"))
    rep.need(len(b.ncalls), "calls into the C library", 1)
    for w in ("crypto_sign_keypair", "crypto_sign", "crypto_sign_open"):
        rep.check("anchor", b.ncalls.get(w, 0) > 0, "falcon.go", "no exported function reaches C.%s" % w, key=w)

def verdict(v):
    """True/False for a boolean result, None when unknown"""
    return v[1] if v[0] == "bool" else None

def g02(rep):
    rep.level = "proof"; rep.trust(*TRUST)
    rep.trust("go-ethereum: abi.Arguments.Unpack, common.LeftPadBytes")
    rep.rules("on every path of the Go package on which verification returns true, crypto_sign_open returned zero for exactly the caller's signature and key, and the opened message was compared equal to the caller's message",
              "on every path of the precompile that returns anything but an error or an all-zero word, ABI decoding succeeded and falcon.VerifySignature returned true for the first, second and third decoded argument")
    b, outs = package(rep, ())
    n = 0
    for nm, (o, plen, params) in outs.items():
        d = b.funcs[nm]
        res = [p["Type"] for p in (d["Type"].get("Results") or {}).get("List", []) for _ in (p.get("Names") or [0])]
        if not any(b.tname(t)[0] == "bool" for t in res): continue
        bi = [i for i, t in enumerate(res) if b.tname(t)[0] == "bool"][0]
        ei = [i for i, t in enumerate(res) if b.tname(t)[0] == "err"]
        sl = [p for p in params if p in plen]
        sigp, msgp, keyp = roles(b, sl)
        for s, v in o:
            vs = v[1] if v[0] == "tuple" else [v]
            if len(vs) <= bi: continue
            t = verdict(vs[bi])
            n += 1
            if t is False: rep.check("true-only-if-verified", True, "falcon.go:" + nm, ""); continue
            ok = False; why = "no crypto_sign_open call that returned zero"
            for c in s.calls:
                if c[0] != "crypto_sign_open" or c[2] != 0: continue
                _, i, _, sig, key, L, off = c
                if not b.same(s, sig, (("in", sigp), lconst(0), plen.get(sigp, lconst(0)))): why = "the opened bytes are not the caller's whole signature"; continue
                if not (key and key[0] == ("in", keyp) and s.eq(key[1], lconst(0))): why = "the key used is not the caller's key"; continue
                if not b.same(s, (("opened", i), off, L), (("in", msgp), lconst(0), plen.get(msgp, lconst(0)))): why = "the opened message is not compared with the caller's whole message"; continue
                ok = True
            rep.check("true-only-if-verified", ok, "falcon.go:" + nm, "a path returns true although it was not established that the signature verifies: " + why, key=nm)
            if ei and ok: rep.check("true-without-error", isok(vs[ei[0]]), "falcon.go:" + nm, "true is returned together with an error", key=nm)
    if not any(k.startswith("analysed") for k, _, _ in rep.viol): rep.need(n, "paths of Go functions returning a truth value", 2)
    precompile(rep)

def roles(b, sl):
    """signature, message and key parameters by name, else by position"""
    def pick(pats, default):
        for p in sl:
            if any(re.search(x, p, re.I) for x in pats): return p
        return default
    d = (sl + [None] * 3)[:3]
    return pick([r"^s(ig|m)"], d[0]), pick([r"^m(sg|es)", r"^m$"], d[1]), pick([r"^p(k|ub)"], d[2])

class Pre(Go):
    """geth/contracts.go: only the Falcon precompile is entered"""
    def external(self, pkg, fn, vs, s, n):
        if pkg == "falcon" and fn == "VerifySignature" and len(vs) == 3:
            cs = tuple(self.content(s, v) if v[0] in ("slice", "nil") else None for v in vs)
            out = []
            for ok, err in ((True, NIL), (False, NIL), (False, ("err", self.id()))):
                t = s.fork(); t.calls.append(("verify", ok, cs)); out.append((t, ("tuple", [("bool", ok), err])))
            return out
        if pkg == "common" and fn in ("LeftPadBytes", "RightPadBytes") and vs[0][0] == "slice":
            v = vs[0]; k = self.const(vs[1]); l = self.const(INTV(v[3])); off = self.const(INTV(v[2]))
            if k is None or l is None or off is None: return None
            ob = s.heap[v[1]] if v[1] is not None else None
            if l >= k: return [(s, v)]
            by = {}
            for i in range(l): by[i + (k - l if fn[0] == "L" else 0)] = ob.by.get(off + i, ob.rest)
            o = self.alloc(s, lconst(k), ("bytes", self.id()), by=by, rest=0)
            return [(s, ("slice", o, lconst(0), lconst(k), lconst(k)))]
        if pkg == "common" and fn == "CopyBytes" and vs[0][0] == "slice" and vs[0][1] is not None:
            v = vs[0]; return [(s, ("slice", self.clone(s, v[1]), v[2], v[3], v[4]))]
        return Go.external(self, pkg, fn, vs, s, n)
    def method(self, recv, name, key, vs, s, n):
        if name == "Unpack" and recv[0] == "opq":
            a = s.fork(); b = s
            i = self.id()
            o = ("opq", ("unpacked", i, recv[1]))
            a.calls.append(("unpack", i, vs[0], recv[1])); 
            if recv[1][0] == "list":
                f = fresh("x", recv[1][1], recv[1][1]); a.flags[("len", o[1])] = f
            return [(a, ("tuple", [o, NIL])), (b, ("tuple", [("opq", ("junk", i)), ("err", i)]))]
        if name == "UnpackValues" and recv[0] == "opq": return self.method(recv, "Unpack", key, vs, s, n)
        if recv[0] == "opq" and recv[1][0] == "recv" and (self.rtype, name) in self.methods:
            return self.invoke(self.methods[(self.rtype, name)], self.rtype + "." + name, vs, s, n)
        return Go.method(self, recv, name, key, vs, s, n)
    def load(self, s, b, i, n):
        if b[0] == "opq" and b[1][0] == "unpacked":
            c = self.const(i)
            nb = s.flags.get(("len", b[1]))
            ok = nb is not None and i[0] == "int" and s.ge(i[1]) and s.ge(ladd(ladd(lsym(nb), i[1], -1), lconst(-1)))
            self.rep("index", ok, self.where(n), "index into the decoded arguments may be out of range")
            return ("opq", ("idx", b[1], c))
        return Go.load(self, s, b, i, n)

def precompile(rep):
    p = "geth/contracts.go"
    fs, trees = load([p], "geth/contracts.go")
    def cb(kind, ok, where, msg):
        if kind in ("index", "slice", "panic"): rep.check("no-panic", ok, "contracts.go:" + where, msg, key=where)
    g = Pre(trees, cb)
    if g.ext.get("import:falcon") is None: raise report.Broken("contracts.go no longer imports the falcon package")
    runs = [(t, d) for (t, m), d in sorted(g.methods.items()) if m == "Run" and reaches(g, t, d, set())]
    rep.need(len(runs), "precompiles that call falcon.VerifySignature", 1)
    npaths = 0
    for t, d in runs:
        st = GSt(); g.cur = t + ".Run"; g.rtype = t
        L = fresh("len(input)", 0, MAXLEN)
        o = g.alloc(st, lsym(L), ("in", "input"))
        rn = (d["Recv"]["List"][0].get("Names") or [{"Name": "_"}])[0]["Name"]
        try:
            outs = g.invoke(d, t + ".Run", [("slice", o, lconst(0), lsym(L), lsym(L))], st, d, scopes=[{rn: g.cell(st, ("opq", ("recv", t)))}])
        except (Unmod, Dead) as e:
            rep.violate("analysed", "contracts.go:" + t + ".Run", "construct not modelled: %s" % e, key=t); continue
        good = 0
        for s, v in outs:
            npaths += 1
            vs = v[1] if v[0] == "tuple" else [v]
            out, err = vs[0], vs[1]
            if err[0] != "nil":
                rep.check("word-one-only-if-verified", True, "contracts.go:" + t + ".Run", ""); continue
            w = word(g, s, out)
            unp = [c for c in s.calls if c[0] == "unpack"]
            ver = [c for c in s.calls if c[0] == "verify"]
            okv = False; why = "verification did not return true"
            for c in ver:
                if not c[1]: continue
                okv = bool(unp); why = "ABI decoding was not checked"
                idx = []
                for a in c[2]:
                    z = a[0] if a else None
                    idx.append(z[1][2] if z and z[0] == "dec" and z[1][0] == "idx" and z[1][1][0] == "unpacked" and not a[1][1] and a[1][0] == 0 else None)
                if okv and idx != [0, 1, 2]: okv = False; why = "signature, message and key are not the three decoded arguments in order (%s)" % idx
                if okv and not all(x[2][0] == "slice" and g.same(s, g.content(s, x[2]), (("in", "input"), lconst(0), lsym(L))) for x in unp): okv = False; why = "the decoded bytes are not the whole call input"
            if w == 0: rep.check("word-one-only-if-verified", True, "contracts.go:" + t + ".Run", "")
            else:
                rep.check("word-one-only-if-verified", okv, "contracts.go:" + t + ".Run", "a path returns %s without success of the verification: %s" % ("the word one" if w == 1 else "an output that is not shown to be zero", why), key=t)
                rep.check("word-shape", w == 1, "contracts.go:" + t + ".Run", "the output of a successful verification is not shown to be the 32-byte word one", key=t)
                good += w == 1 and okv
            if w == 0 and ver and any(c[1] for c in ver):
                rep.check("verified-gives-one", False, "contracts.go:" + t + ".Run", "a verified message yields the word zero", key=t)
        rep.check("success-reachable", good > 0, "contracts.go:" + t + ".Run", "no path returns the word one", key=t)
        rep.unit("contracts.go:%s.Run" % t, {"paths": len(outs)})
    rep.need(npaths, "paths of the precompile", 1)

def reaches(g, t, d, seen):
    """d (or a function or method it calls) calls falcon.VerifySignature"""
    if id(d) in seen: return False
    seen.add(id(d)); r = []
    def walk(x):
        if r: return
        if isinstance(x, dict):
            if x.get("_") == "SelectorExpr":
                b = x["X"].get("Name"); s = x["Sel"]["Name"]
                if b == "falcon" and s == "VerifySignature": r.append(1)
                elif (t, s) in g.methods and reaches(g, t, g.methods[(t, s)], seen): r.append(1)
            if x.get("_") == "Ident" and x["Name"] in g.funcs and reaches(g, t, g.funcs[x["Name"]], seen): r.append(1)
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(d["Body"] if d.get("Body") else [])
    return bool(r)

def word(g, s, v):
    """0: all bytes zero / empty, 1: the 32-byte word one, None: anything else"""
    if v[0] == "nil": return 0
    if v[0] != "slice": return None
    if v[1] is None: return 0
    l, off = g.const(INTV(v[3])), g.const(INTV(v[2]))
    if l is None or off is None or l > 4096: return None
    ob = s.heap[v[1]]
    bs = [ob.by.get(off + i, ob.rest) for i in range(l)]
    if any(b is None for b in bs): return None
    if not any(bs): return 0
    return 1 if l == 32 and bs[-1] == 1 and not any(bs[:-1]) else None

def g03(rep):
    rep.level = "proof"; rep.trust(*TRUST)
    rep.trust("crypto/rand delivers operating system entropy when it returns no error")
    rep.rules("every draw of the Go package from the C generator (key generation, signing) happens after randombytes_init with 48 bytes filled by crypto/rand without error, and under one lock held since",
              "key generation returns the 897 public and 1281 secret bytes C wrote, signing signs exactly the caller's message with the caller's key and returns exactly the bytes C reported, and a failure of C yields an error")
    b, outs = package(rep, ("entropy", "serial"))
    n = 0
    for nm, (o, plen, params) in outs.items():
        for s, v in o:
            vs = v[1] if v[0] == "tuple" else [v]
            if not vs or not isok(vs[-1]): continue
            bad = [c for c in s.calls if c[0] in ("crypto_sign_keypair", "crypto_sign", "crypto_sign_open") and c[2] != 0]
            rep.check("c-failure-is-error", not bad, "falcon.go:" + nm, "a failure of C.%s is not reported as an error" % (bad[0][0] if bad else ""), key=nm)
            for c in s.calls:
                if c[0] == "crypto_sign_keypair" and c[2] == 0:
                    n += 1
                    want = [(("keypk", c[1]), b.PK), (("keysk", c[1]), b.SK)]
                    for x, (t, l) in zip(vs, want):
                        ok = x[0] in ("slice", "arr", "str") and b.same(s, b.content(s, x), (t, lconst(0), lconst(l)))
                        rep.check("returns-what-C-wrote", ok, "falcon.go:" + nm, "the returned %s key is not exactly the %d bytes C wrote" % ("public" if t[0] == "keypk" else "secret", l), key=nm + t[0])
                if c[0] == "crypto_sign" and c[2] == 0:
                    n += 1
                    _, i, _, msg, key, L = c
                    sl = [p for p in params if p in plen]
                    mp = next((p for p in sl if re.match(r"m", p, re.I)), sl[0] if sl else None); kp = next((p for p in sl if p != mp and re.match(r"s|priv|key", p, re.I)), None)
                    ok = mp is not None and b.same(s, msg, (("in", mp), lconst(0), plen[mp]))
                    rep.check("signs-the-message", ok, "falcon.go:" + nm, "the bytes signed are not exactly the caller's message", key=nm)
                    x = vs[0]
                    ok = x[0] in ("slice", "str") and b.same(s, b.content(s, x), (("signed", i), lconst(0), L))
                    rep.check("returns-what-C-wrote", ok, "falcon.go:" + nm, "the returned signed message is not exactly the bytes C reported", key=nm)
    if not any(k.startswith("analysed") for k, _, _ in rep.viol): rep.need(n, "successful paths of key generation and signing", 2)
