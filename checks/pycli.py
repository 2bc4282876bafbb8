"""Python command line tool (Y05): dispatch on version and action, calls, secrets, randomness, contract calls."""
import os, re, shlex, string
from sa.py import *
from sa.py import St, Ip, Src, S, I, K, R, T, B, V, Fn, Cls, Bound, Ext, Exc, Undef, Obj, SeqO, NONE, TRUE, FALSE, const, strval, slen, src_of, lin_of, cmk, show, term, DEF, Unsup, Mod, lsym, Sym, Gen, lit, BUILTIN_FNS, LOOPDEP
from checks.pyref import PYREF, REPO, emit, fresh_n, TRUSTP
from checks.pysign import mkip, rope, Q

SCHEME = {"SecretKey": "falcon", "PublicKey": "falcon", "RecoveryModeSecretKey": "recovery", "RecoveryModePublicKey": "recovery", "EpervierSecretKey": "epervier", "EpervierPublicKey": "epervier"}
SECRET = tuple("fgFG")
CRASH = ("NameError", "UnboundLocalError", "TypeError", "AttributeError", "IndexError", "KeyError", "OverflowError")
CONTRACT = {"falcon": ("ZKNOX_falcon",), "ethfalcon": ("ZKNOX_ethfalcon",), "epervier": ("ZKNOX_epervier", "ZKNOX_ethepervier")}

def roots(v, st, seen=None, out=None):
    "names of the inputs a value was computed from"
    seen = set() if seen is None else seen; out = set() if out is None else out
    if isinstance(v, (list, tuple)):
        for x in v: roots(x, st, seen, out)
        return out
    if isinstance(v, dict):
        for k, x in v.items(): roots(k, st, seen, out); roots(x, st, seen, out)
        return out
    if isinstance(v, Sym):
        if ("y", v) in seen: return out
        seen.add(("y", v)); d = DEF.get(v)
        roots(LOOPDEP.get(v), st, seen, out)
        if d: roots(list(d[1]) if isinstance(d[1], (list, tuple)) else d[1], st, seen, out)
        return out
    if isinstance(v, Src):
        if ("s", v.id) in seen: return out
        seen.add(("s", v.id))
        if getattr(v, "root", None): out.add(v.root)
        roots(LOOPDEP.get(v), st, seen, out)
        for x in (v.val, getattr(v, "term", None), getattr(v, "base", None), getattr(v, "owner", None)):
            if x is not None: roots(x, st, seen, out)
        return out
    if isinstance(v, I): return roots(list(v.lin[1]), st, seen, out)
    if isinstance(v, S):
        for p in v.p:
            if p[0] == "s": roots(p[1], st, seen, out); roots([list(p[2][1]), list(p[3][1])], st, seen, out)
            elif p[0] == "c": roots(p[1], st, seen, out)
            else: roots(p[1], st, seen, out)
        return out
    if isinstance(v, R):
        if ("r", v.i) in seen: return out
        seen.add(("r", v.i)); h = st.heap.get(v.i)
        if h is not None: roots([getattr(h, "a", None), getattr(h, "s", None), [x for kv in getattr(h, "d", {}).values() for x in kv] if getattr(h, "d", None) else None], st, seen, out)
        return out
    if isinstance(v, T):
        if getattr(v, "root", None): out.add(v.root)
        if getattr(v, "lst", None) is not None: roots(v.lst, st, seen, out)
        elif v.op == "ring":
            for k in getattr(v, "e", {}): atom(k, st, seen, out)
        return roots(list(v.a), st, seen, out)
    if isinstance(v, Bound): return roots(v.s, st, seen, out)
    return out

def atom(k, st, seen, out):
    "inputs behind a monomial of a ring expression"
    if isinstance(k, tuple) and k and isinstance(k[0], tuple):
        for x in k: atom(x, st, seen, out)
        return
    a = ENV.atoms.get(k)
    if isinstance(a, tuple): roots(a[0], st, seen, out)
    elif isinstance(a, list): 
        for x in a: 
            for y in x: atom(y, st, seen, out)
    else: out.add("?%s" % (k,))
ENV = None
def whole_in(ip, st, msg, data):
    "the bytes of the message are a contiguous part of the bytes hashed, or a hash of them is"
    mp = rope(ip, msg, st); dp = rope(ip, data, st)
    if mp is None or dp is None: return False
    same = lambda a, b: a[0] == b[0] and (a[0] == "s" and a[1] is b[1] and st.zero(ladd(a[2], b[2], -1)) and st.zero(ladd(a[3], b[3], -1)) or a[0] == "c" and [x.key() for x in a[1]] == [x.key() for x in b[1]] or a[0] == "r" and show(a[1]) == show(b[1]) and st.zero(ladd(a[2], b[2], -1)))
    if any(len(dp) - i >= len(mp) and all(same(x, y) for x, y in zip(dp[i:], mp)) for i in range(len(dp))): return True
    for p in dp:
        if p[0] != "s": continue
        sp = getattr(p[1], "sponge", None); t = getattr(p[1], "term", None)
        if sp is not None and whole_in(ip, st, msg, sp[2]): return True
        if t is not None and t.op.startswith(("m:digest", "m:hexdigest", "call:hashlib")) and any(show(st.vnorm(S("bytes", mp))) in show(x) for x in t.a): return True
    return False

def abi(paths):
    "external signatures declared by the contracts"
    out = set()
    for p in paths:
        t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(REPO, "src", p + ".sol")).read(), flags=re.S)
        for m in re.finditer(r"\bfunction\s+(\w+)\s*\(([^)]*)\)([^{;]*)", t):
            if re.search(r"\b(external|public)\b", m.group(3)):
                out.add((m.group(1), tuple(x.split()[0] for x in m.group(2).split(",") if x.strip())))
    return out

def drive_cli(mod, action, version, entry="cli"):
    """one action of the tool with keys of one version; every other input is arbitrary"""
    title = "%s %s %s" % (mod, action or "choices", version)
    global ENV
    ip, env = mkip(title); h = ip.hooks; mh = ip.mhooks; ENV = env
    ev = {"sign": [], "verify": [], "keys": [], "secret": [], "chain": []}
    def src(name, root, lo, hi):
        s = src_of((name, title), name, lo, hi); s.root = root; return s
    for cls, m in (("SecretKey", "falcon"), ("RecoveryModeSecretKey", "falcon_recovery"), ("EpervierSecretKey", "falcon_epervier"), ("PublicKey", "falcon"), ("RecoveryModePublicKey", "falcon_recovery"), ("EpervierPublicKey", "falcon_epervier")): ip.module(m)
    m = ip.module(mod)
    n = 512
    vec = lambda ip, st, a, kw: [(st, ip.mk(st, "list", [("s", ip.src_term(T("vec", *[ip.val(x, st) for x in a])), lconst(0), lconst(n))]))]
    h["ffsampling.gram"] = lambda ip, st, a, kw: [(st, ip.mk(st, "list", [("c", [ip.mk(st, "list", [("c", [vec(ip, st, a, kw)[0][1] for j in range(2)])]) for i in range(2)])]))]
    h["falcon.normalize_tree"] = lambda ip, st, a, kw: [(st, NONE)]
    def files(ip, st, a, kw):
        v = dict(zip(("file", "mode"), a)); v.update(kw)
        return [(st, T("file", ip.val(v["file"], st), ip.val(v.get("mode", lit("r")), st)))]
    h["builtins.open"] = files
    def sink(what, vals, st):
        r = roots(vals, st)
        ip.oblige("secrets", not (r & set(SECRET)), title, "secret polynomials %s reach %s" % (sorted(r & set(SECRET)), what))
    def write(ip, st, o, a, kw):
        if not (isinstance(o, T) and o.op == "file"): return None
        r = roots(list(a), st); name = strval(o.a[0])
        if r & set(SECRET): ip.oblige("secrets", name is not None and "private" in name, title, "secret polynomials %s are written to %s" % (sorted(r & set(SECRET)), show(o.a[0])))
        if r & set(SECRET): ev["secret"].append(name)
        return [(st, NONE)]
    mh["write"] = write
    def read(ip, st, o, a, kw):
        if isinstance(o, T) and o.op == "file": return [(st, T("content", o.a[0]))]
    mh["read"] = read
    def pr(ip, st, a, kw): sink("the terminal", list(a), st); return [(st, NONE)]
    h["builtins.print"] = pr
    # key files
    def field(v):
        "name of the key-file field a value was read from"
        while isinstance(v, T) and v.op in ("m:lstrip", "m:strip", "m:rstrip") and len(v.a) == 1: v = v.a[0]
        if isinstance(v, T) and v.op == "item":
            k = strval(v.a[1])
            return k.strip() if k is not None else None
    def strip(name):
        def f(ip, st, o, a, kw):
            if field(o) == "version" and not a: return [(st, lit(version))]
        return f
    for k in ("lstrip", "strip"): mh[k] = strip(k)
    def integer(ip, st, a, kw):
        f = field(a[0]) if a else None
        if f == "n": return [(st, I(n))]
        if f is None and a and isinstance(a[0], T): return [(st, I(lsym(Sym("int", 0, 1 << 256))))]
        return BUILTIN_FNS["builtins.int"](ip, st, a, kw)
    h["builtins.int"] = integer
    def pkval(st): return ip.mk(st, "list", [("s", src("pk", "pk", 0, Q - 1), lconst(0), lconst(n))]) if version in ("falcon", "ethfalcon") else I(lsym(Sym("pkhash", 0, (1 << 160) - 1)))
    def literal(ip, st, a, kw):
        f = field(a[0])
        if f in SECRET: return [(st, ip.mk(st, "list", [("s", src("secret " + f, f, -127, 127), lconst(0), lconst(n))]))]
        if f == "pk": return [(st, pkval(st))]
    h["ast.literal_eval"] = literal
    h["builtins.dict"] = lambda ip, st, a, kw: [(st, T("fields", *[ip.val(x, st) for x in a if isinstance(x, V)]))] if a and not isinstance(a[0], R) else BUILTIN_FNS["builtins.dict"](ip, st, a, kw) if "builtins.dict" in BUILTIN_FNS else None
    # keys
    real = {}
    def mkkey(c, mname):
        def new(ip, st, a, kw):
            ev["keys"].append(c.name)
            del h["new:%s.%s" % (mname, c.name)]
            try:
                v = dict(zip(("n", "polys"), a)); v.update(kw)
                if v.get("polys") is None or v["polys"] is NONE or const(v["polys"]) is None and isinstance(v["polys"], K):
                    v["polys"] = ip.mk(st, "list", [("c", [ip.mk(st, "list", [("s", src("secret " + x, x, -127, 127), lconst(0), lconst(n))]) for x in SECRET])])
                q = ip.quiet; ip.quiet = True
                rs = [(s, o) for s, o in ip.call(c, [v["n"], v["polys"]], {}, st) if not isinstance(o, Exc)]
                ip.quiet = q
            finally: h["new:%s.%s" % (mname, c.name)] = new
            out = []
            for s, o in rs:
                ob = s.heap[o.i].copy()
                if "h" in ob.a: ob.a["h"] = ip.mk(s, "list", [("s", src("h", "pk", 0, Q - 1), lconst(0), lconst(n))])
                if "pk" in ob.a: ob.a["pk"] = I(lsym(Sym("pkhash", 0, (1 << 160) - 1)))
                s.heap[o.i] = ob; out.append((s, o))
            return out
        return new
    def pubkey(c, mname):
        def new(ip, st, a, kw):
            ev["keys"].append(c.name)
            del h["new:%s.%s" % (mname, c.name)]
            try: return ip.call(c, a, kw, st)
            finally: h["new:%s.%s" % (mname, c.name)] = new
        return new
    for mname in ("falcon", "falcon_recovery", "falcon_epervier"):
        for c in ip.module(mname).env.values():
            if not (isinstance(c, Cls) and c.mod.name == mname and c.name in SCHEME): continue
            h["new:%s.%s" % (mname, c.name)] = mkkey(c, mname) if "Secret" in c.name else pubkey(c, mname)
    def xofname(x, st):
        if isinstance(x, Cls): return x.name
        if isinstance(x, R) and isinstance(st.heap.get(x.i), Obj): return st.heap[x.i].cls.name
        return "KeccakPRNG" if x is None else show(x)
    def sign(cname):
        def f(ip, st, a, kw):
            v = dict(zip(("self", "message", "randombytes", "xof"), a)); v.update(kw)
            cl = st.heap[v["self"].i].cls.name
            ev["sign"].append((cl, xofname(v.get("xof"), st)))
            if ip.quiet: pass
            msg = v["message"]; r = v.get("randombytes"); who = None; fin = None
            if r is None or isinstance(r, Ext) and r.name == "os.urandom": who = {"system"}
            elif isinstance(r, Bound) and isinstance(r.s, R) and isinstance(st.heap.get(r.s.i), Obj):
                o = st.heap[r.s.i]
                for x in [o] + [st.heap[y.i] for y in o.a.values() if isinstance(y, R) and isinstance(st.heap.get(y.i), Obj)]:
                    if x.cls is env.keccak: who = roots(x.a["data"], st); fin = st.zero(ladd(x.a["padded"].lin, lconst(-1))); whole = x.a["data"]
                if fin is not None: ip.oblige("finalised", fin, title, "the signer's randomness is read from a hash that is not finalised")
                if who is not None and fin is not None:
                    mr = roots(msg, st)
                    ip.oblige("randomness", bool(who & set(SECRET)), title, "the signer's randomness is computed from public values only (%s)" % ", ".join(sorted(who)))
                    ip.oblige("randomness", mr <= who, title, "the signer's randomness does not depend on the message")
                    ip.oblige("randomness", whole_in(ip, st, msg, whole), title, "the signer's randomness does not depend on every byte of the message: %s" % show(st.vnorm(whole))[-200:])
            if who is None: ip.oblige("randomness", False, title, "the signer's randomness comes from %s" % show(r))
            else: ip.oblige("randomness", True, title)
            s = src_of(("sig", title), "signature", 0, 255); s.root = "sig"
            return [(st, S("bytes", [("s", s, lconst(0), lsym(Sym("siglen", 666, 1 << 20)))]))]
        return f
    def verify(ip, st, a, kw):
        v = dict(zip(("self", "message", "signature"), a)); v.update(kw)
        cl = st.heap[v["self"].i].cls.name
        ev["verify"].append((cl, xofname(v.get("xof"), st)))
        return [(st, B(("tt", T("verified"))))]
    for mname in ("falcon", "falcon_recovery", "falcon_epervier"):
        for c in ip.module(mname).env.values():
            if isinstance(c, Cls) and c.mod.name == mname and c.name in SCHEME:
                h["%s.%s.sign" % (mname, c.name)] = sign(c.name); h["%s.%s.verify" % (mname, c.name)] = verify
    def decomp(ip, st, a, kw):
        v = dict(zip(("x", "slen", "n"), a)); v.update(kw)
        return [(st, ip.mk(st, "list", [("s", ip.src_term(T("decoded", ip.val(v["x"], st)), -2047, 2047), lconst(0), lin_of(v["n"]))]))]
    h["encoding.decompress"] = decomp
    h["common.falcon_compact"] = lambda ip, st, a, kw: [(st, T("compact", ip.val(a[0], st)))]
    h["eth_abi.encode"] = lambda ip, st, a, kw: [(st, S("bytes", [("s", ip.src_term(T("abi", ip.val(a[1], st)), 0, 255), lconst(0), fresh_n("alen"))]))]
    def unhex(ip, st, a, kw):
        s = ip.src_term(T("unhex", ip.val(a[-1], st)), 0, 255)
        return [(st, S("bytes", [("s", s, lconst(0), lsym(term("hexlen", (s,), 4096, 1 << 40)))]))]
    h["builtins.bytes.fromhex"] = unhex
    # string formatting
    def fmt(ip, st, o, a, kw):
        t = strval(o)
        if t is None: return None
        auto = 0; need = 0
        try: fs = list(string.Formatter().parse(t))
        except ValueError: return [(st, Exc("ValueError", ip.where))]
        for _, f, _, _ in fs:
            if f is None: continue
            if f == "": auto += 1; need = max(need, auto)
            elif re.match(r"\d+", f): need = max(need, int(re.match(r"\d+", f).group()) + 1)
            elif f.split(".")[0].split("[")[0] not in kw: return [(st, Exc("KeyError", ip.where))]
        if need > len(a): return [(st, Exc("IndexError", ip.where))]
        r = T("fmt", o, *[ip.val(x, st) for x in a] + [T("kw", K(k), ip.val(x, st)) for k, x in sorted(kw.items())])
        r.fs = fs; r.args = [ip.val(x, st) for x in a]; r.kw = {k: ip.val(x, st) for k, x in kw.items()}
        return [(st, r)]
    mh["format"] = fmt
    # external commands
    def tokens(v, st):
        s = ip.seq(v, st)
        if isinstance(v, T) and v.op == "fmt":
            text = ""; vals = []; k = 0
            for lit_, f, _, _ in v.fs:
                text += lit_
                if f is None: continue
                if f == "": x = v.args[k]; k += 1
                elif f.isdigit(): x = v.args[int(f)]
                else: x = v.kw[f]
                c = strval(x)
                if c is not None: text += c
                else: text += "\x00%d\x00" % len(vals); vals.append(x)
            out = []
            for w in shlex.split(text):
                q = [vals[int(x)] if i % 2 else lit(x) for i, x in enumerate(w.split("\x00")) if i % 2 or x]
                out.append(q[0] if len(q) == 1 else T("join", *q))
            return out
        if s is None or s.kind == "str": return None
        out = []
        for p in s.p:
            if p[0] != "c": return None
            out += p[1]
        return out
    def run(ip, st, a, kw):
        sink("another process", [ip.val(a[0], st)], st)
        tk = tokens(a[0], st)
        if tk is None: raise Unsup("a command whose words are not known: %s" % show(a[0])[:200])
        i = next((i for i, x in enumerate(tk) if strval(x) is not None and re.match(r"^\w+\s*\(", strval(x))), None)
        if i is None: ip.oblige("contract", False, title, "no contract function is named"); return [(st, T("process"))]
        g = re.match(r"^(\w+)\((.*)\)$", strval(tk[i]).strip()); args = []
        for x in tk[i + 1:]:
            if strval(x) is not None and strval(x).startswith("--"): break
            args.append(x)
        sg = (g.group(1), tuple(x.strip() for x in g.group(2).split(","))) if g else (strval(tk[i]), ())
        ip.oblige("contract", sg in abi(CONTRACT.get(version, ())), title, "%s is not a function of the contracts of %s" % (strval(tk[i]), version))
        ip.oblige("contract", len(args) == len(sg[1]), title, "%d arguments are passed to %s" % (len(args), strval(tk[i])))
        for j, x in enumerate(args[:len(sg[1])]):
            r = roots(x, st)
            want = ({"data"}, {"sigfile"}, {"sigfile"}, {"sigfile"} if sg[0] == "recover" else {"pk"}, {"sigfile"})[j] if j < 5 else set()
            ip.oblige("contract", r == want, title, "argument %d of %s is computed from %s, not from %s" % (j + 1, sg[0], "/".join(sorted(r)) or "nothing", "/".join(sorted(want))))
        ev["chain"].append(sg)
        return [(st, T("process"))]
    h["subprocess.run"] = run
    # command line
    opts = {}
    choices = []
    acls = Cls("args", Mod("lib"), [], {})
    def add(ip, st, o, a, kw):
        name = strval(a[0]).lstrip("-").replace("-", "_"); opts[name] = True
        if "choices" in kw:
            s = ip.seq(kw["choices"], st); choices.extend(strval(x) for p in s.p for x in p[1])
        return [(st, NONE)]
    mh["add_argument"] = add
    def parse(ip, st, o, a, kw):
        at = {}
        for k in opts:
            t = T("arg", K(k)); t.root = "sigfile" if k == "signature" else k
            at[k] = t
        if action: at["action"] = lit(action)
        if action == "genkeys": at["version"] = lit(version)
        return [(st, ip.alloc(st, Obj(acls, at)))]
    mh["parse_args"] = parse
    st = St(); st.fr = [{}]
    if entry not in m.env: raise Unsup("%s has no %s" % (mod, entry))
    rs = ip.call(m.env[entry], [], {}, st)
    for s, v in rs:
        if isinstance(v, Exc) and v.name in CRASH: ip.oblige("calls", False, title, "%s at %s:%s%s" % (v.name, v.where[0] if v.where else "?", v.where[1] if v.where else "?", " (%s)" % v.where[2] if v.where and len(v.where) > 2 else ""))
    ip.oblige("calls", True, title)
    return ip, rs, title, ev, choices

DOCUMENTED = ("falcon", "ethfalcon", "epervier")
def y05(rep):
    rep.rules("for every action and every version whose keys the tool generates: no call that its callee cannot bind, no unbound variable, no missing attribute or format argument on any path", "signing and verification of one version use the same XOF and the key classes of one scheme; generation writes keys of that scheme",
              "secret polynomials reach no sink but a file named as the private key", "the signer's randomness is a finalised hash of the secret key and the message", "contract calls name a function the contract declares, with its number of arguments, each computed from the input it stands for")
    rep.trust(*TRUSTP, "keys, signatures and their verification are opaque here (properties Y02, Y03, Y04)", "data flow through values is followed, flow through branch conditions is not", "argparse/open/subprocess as their documentation says; exceptions of external origin (bad files, bad hexadecimal) are not findings")
    _, _, _, _, choices = drive_cli("sign_cli", None, "falcon")
    rep.check("dispatch", bool(choices), "sign_cli.cli", "the actions are not declared")
    rep.unit("actions", {"actions": choices})
    for v in ("falcon", "ethfalcon", "falconrec", "epervier"):
        ev = {}
        for a in ["genkeys"] + [x for x in choices if x != "genkeys"]:
            ip, rs, title, e, _ = drive_cli("sign_cli", a, v)
            emit(rep, ip, title, ("calls",))
            for k, x in e.items(): ev.setdefault(k, set()).update(x)
            if a == "genkeys":
                made = bool(e["secret"])
                rep.check("generated", made or v not in DOCUMENTED, title, "no keys are generated for a documented version")
            if not made: break
        if not made: continue
        w = "sign_cli version %s" % v
        rep.check("dispatch", bool(ev["sign"]) and bool(ev["verify"]), w, "the version generates keys but never signs or never verifies")
        rep.check("hash", len({x for _, x in ev["sign"] | ev["verify"]}) == 1, w, "signing uses %s, verification uses %s" % (sorted({x for _, x in ev["sign"]}), sorted({x for _, x in ev["verify"]})))
        rep.check("scheme", len({SCHEME[c] for c in {c for c, _ in ev["sign"] | ev["verify"]} | ev["keys"]}) == 1, w, "keys of several schemes are used: %s" % sorted({c for c, _ in ev["sign"] | ev["verify"]} | ev["keys"]))
        rep.need(len(ev["secret"]), "%s: writes of secret polynomials" % w, 1)
